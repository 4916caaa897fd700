// C20: the type registry under concurrent first use and nested
// initialize/terminate.  Every execution starts with no type used yet, and
// ends with the destructors of all static objects.
#include "common.h"
#include "dap/dap.h"
#include "dap/protocol.h"
#include "dap/typeof.h"
#include "dap/types.h"

namespace dap {
struct Alpha {
  integer x;
  array<optional<string>> y;
};
DAP_STRUCT_TYPEINFO(Alpha, "alpha", DAP_FIELD(x, "x"), DAP_FIELD(y, "y"));
struct Beta : Alpha {
  optional<array<Alpha>> z;
};
DAP_STRUCT_TYPEINFO_EXT(Beta, Alpha, "beta", DAP_FIELD(z, "z"));
}  // namespace dap

namespace {
using dap::TypeInfo;

// A description that reports its own end.
struct Own : TypeInfo {
  int id;
  std::string n;
  explicit Own(int id) : id(id), n("a name that does not fit into the string itself") { mc::add(100 + id, 1); }
  ~Own() {
    if (mc::add(120 + id, 1) > 1) mc::fail("a description is destroyed twice");
  }
  std::string name() const override { return n; }
  size_t size() const override { return 1; }
  size_t alignment() const override { return 1; }
  void construct(void*) const override {}
  void copyConstruct(void*, const void*) const override {}
  void destruct(void*) const override {}
  bool deserialize(const dap::Deserializer*, void*) const override { return false; }
  bool serialize(dap::Serializer*, const void*) const override { return false; }
};

struct Item {
  const char* name;
  const TypeInfo* (*get)();
  size_t size, align;
  bool atExit;  // described by a static object that ends with the process
};
template <typename T> const TypeInfo* of() { return dap::TypeOf<T>::type(); }
#define IT(T, NAME, X) {NAME, &of<T>, sizeof(T), alignof(T), X}
using VarIS = dap::variant<dap::integer, dap::string>;
const Item kItems[] = {
    IT(dap::boolean, "boolean", false),
    IT(dap::string, "string", false),
    IT(dap::any, "any", false),
    IT(dap::null, "null", false),
    IT(dap::array<dap::integer>, "array<integer>", false),
    IT(dap::array<dap::string>, "array<string>", false),
    IT(dap::optional<dap::number>, "optional<number>", false),
    IT(VarIS, "variant", false),
    IT(dap::optional<dap::array<dap::object>>, "optional<array<object>>", false),
    IT(dap::Alpha, "alpha", true),
    IT(dap::Beta, "beta", true),
    IT(dap::Source, "", true),
    IT(dap::StoppedEvent, "stopped", true),
};
const int kNItems = sizeof kItems / sizeof *kItems;
void probe(const Item& i, const TypeInfo* t) {
  if (!t) mc::fail("no description of %s", i.name);
  if (t->name() != i.name) mc::fail("the description of %s is named %s", i.name, t->name().c_str());
  if (t->size() != i.size || t->alignment() != i.align) mc::fail("the description of %s has another size", i.name);
}
const TypeInfo* use(int k) {
  const TypeInfo* t = kItems[k].get();
  probe(kItems[k], t);
  if (kItems[k].get() != t) mc::fail("two descriptions of %s on one thread", kItems[k].name);
  return t;
}
// Ends the process; everything must have been released.
void end(long outstanding) {
  mc::exitHandlers();
  while (outstanding-- > 0) dap::terminate();
  if (long n = mc::liveBlocks()) mc::fail("%ld blocks of type descriptions are not released at the end", n);
}
mc::Bounds cold(int p) {
  mc::Bounds b = pb(p);
  b.warmup = false;
  return b;
}
}  // namespace

// Two threads use the same or different types for the first time.
MC_SCENARIO(c20_first_use, cold(2), cold(3)) {
  int a = mc::choose(kNItems, "type of thread 1"), b = mc::choose(kNItems, "type of thread 2");
  if (b < a) mc::discard();
  {
    const TypeInfo *ta = nullptr, *tb = nullptr, *tb2 = nullptr;
    std::thread x([&] { ta = use(a); });
    std::thread y([&] { tb = use(b); tb2 = use(a); });
    x.join();
    y.join();
    if (ta != tb2) mc::fail("the threads have different descriptions of %s", kItems[a].name);
    if (use(a) != ta || use(b) != tb) mc::fail("the description changed");
  }
  end(0);
}
// Three threads, one type each, all of the heap-described kind.
MC_SCENARIO(c20_first_use_three, cold(1), cold(3)) {
  static const int kinds[] = {4, 6, 8, 9};
  int k = mc::choose(4, "type");
  {
    const TypeInfo* t[3] = {};
    std::vector<std::thread> th;
    for (int i = 0; i < 3; i++) th.emplace_back([&, i] { t[i] = i == 2 ? use(5) : use(kinds[k]); });
    for (auto& x : th) x.join();
    if (t[0] != t[1]) mc::fail("different descriptions");
  }
  end(0);
}
// initialize/terminate in every paired order on two threads, with uses of
// types in between.
namespace {
void script(int s, int first) {
  switch (s) {
    case 0: use(first); break;
    case 1: dap::initialize(); use(first); dap::terminate(); break;
    case 2: dap::initialize(); dap::terminate(); use(first); break;
    case 3: dap::initialize(); dap::initialize(); use(first); dap::terminate(); use(4); dap::terminate(); break;
    case 4: use(first); dap::initialize(); dap::terminate(); use(first); break;
    case 5: dap::initialize(); dap::terminate(); dap::initialize(); use(first); dap::terminate(); break;
  }
}
}  // namespace
MC_SCENARIO(c20_init_terminate, cold(2), cold(4)) {
  int a = mc::choose(6, "thread 1"), b = mc::choose(6, "thread 2");
  if (b < a) mc::discard();
  static const int kinds[] = {0, 4, 9};
  int k1 = kinds[mc::choose(3, "type 1")], k2 = kinds[mc::choose(3, "type 2")];
  int outer = mc::choose(2, "main initialized");
  {
    if (outer) dap::initialize();
    std::thread x([&] { script(a, k1); });
    std::thread y([&] { script(b, k2); });
    x.join();
    y.join();
    auto t = use(4);
    if (outer) dap::terminate();
    if (use(4) != t) mc::fail("the description changed by terminate()");
    use(k1);
  }
  end(0);
}
// initialize on one thread, terminate on another; more initialized than
// terminated when the process exits.
MC_SCENARIO(c20_outstanding, cold(2), cold(4)) {
  int n = 1 + mc::choose(2, "outstanding");
  int k = mc::choose(9, "type");
  bool early = mc::choose(2, "used before");
  const TypeInfo* t = nullptr;
  {
    if (early) t = use(k);
    for (int i = 0; i < n + 1; i++) dap::initialize();
    std::thread x([&] { dap::terminate(); });
    std::thread y([&] { if (k < 9) use(k); });
    x.join();
    y.join();
    t = use(k);
  }
  mc::exitHandlers();
  // still initialized: descriptions remain valid after the static objects ended
  probe(kItems[k], t);
  if (n == 2) {
    dap::terminate();
    probe(kItems[k], t);
  }
  end(1);
}
// The last references are given up by several threads after the static objects
// ended: the descriptions are released once.
MC_SCENARIO(c20_last_terminate, cold(3), cold(5)) {
  int n = 2 + mc::choose(2, "outstanding");
  for (int i = 0; i < n; i++) dap::initialize();
  TypeInfo::create<Own>(0);
  use(0);
  mc::exitHandlers();
  {
    std::vector<std::thread> th;
    for (int i = 0; i < n; i++) th.emplace_back([] { dap::terminate(); });
    for (auto& t : th) t.join();
  }
  if (mc::get(120) != 1) mc::fail("a description is destroyed %ld times", mc::get(120));
  if (long k = mc::liveBlocks()) mc::fail("%ld blocks of type descriptions are not released at the end", k);
}
// All histories of initialize, terminate, first uses and own descriptions on
// one thread.
namespace {
struct KeepOpen {
  ~KeepOpen() {}
};
}  // namespace
MC_SCENARIO(c20_histories, cold(0), cold(0)) {
  int depth = mc::thorough() ? 7 : 5;
  int up = 0, owned = 0;
  bool used = false;
  const TypeInfo* seen[kNItems] = {};
  for (int d = 0; d < depth; d++) {
    int op = mc::choose(8, "op");
    if (op == 0) dap::initialize(), up++;
    else if (op == 1) { if (!up) mc::discard(); dap::terminate(); up--; }
    else if (op == 2) { if (owned >= 3) mc::discard(); TypeInfo::create<Own>(owned++); }
    else {
      static const int kinds[] = {0, 4, 7, 9, 10};
      int k = kinds[op - 3];
      auto t = use(k);
      if (seen[k] && seen[k] != t) mc::fail("the description of %s changed", kItems[k].name);
      seen[k] = t;
    }
    for (int i = 0; i < kNItems; i++)
      if (seen[i]) probe(kItems[i], seen[i]);
    for (int i = 0; i < owned; i++)
      if (mc::get(120 + i)) mc::fail("a description is destroyed while in use");
  }
  (void)used;
  mc::exitHandlers();
  for (int i = 0; i < kNItems; i++)
    if (seen[i] && up && !kItems[i].atExit) probe(kItems[i], seen[i]);
  if (up)
    for (int i = 0; i < owned; i++)
      if (mc::get(120 + i)) mc::fail("a description is destroyed before the last terminate");
  end(up);
  for (int i = 0; i < owned; i++)
    if (mc::get(120 + i) != 1) mc::fail("a description is destroyed %ld times", mc::get(120 + i));
}
// Descriptions registered concurrently are all kept, and all released.
MC_SCENARIO(c20_register, cold(2), cold(4)) {
  {
    std::vector<std::thread> th;
    int n = 2 + mc::choose(2, "threads");
    for (int i = 0; i < n; i++) th.emplace_back([i] {
      auto t = TypeInfo::create<Own>(i);
      if (t->name().size() < 20) mc::fail("description unusable");
      if (i == 0) use(4);
    });
    for (auto& t : th) t.join();
    for (int i = 0; i < n; i++)
      if (mc::get(120 + i)) mc::fail("a description is destroyed too early");
    mc::set(90, n);
  }
  end(0);
  for (int i = 0; i < mc::get(90); i++)
    if (mc::get(120 + i) != 1) mc::fail("description %d is destroyed %ld times", i, mc::get(120 + i));
}
// First use while a value of the type is being built and copied in an any.
MC_SCENARIO(c20_any_first_use, cold(2), cold(3)) {
  {
    std::thread x([] {
      dap::any a = dap::array<dap::string>{"one", "two"};
      dap::any b = a;
      if (!b.is<dap::array<dap::string>>() || b.get<dap::array<dap::string>>().size() != 2) mc::fail("any on thread 1");
    });
    std::thread y([] {
      dap::any a = dap::array<dap::string>{"three"};
      if (!a.is<dap::array<dap::string>>() || a.is<dap::array<dap::integer>>()) mc::fail("any on thread 2");
      dap::Alpha al;
      dap::any c(al);
      if (!c.is<dap::Alpha>()) mc::fail("struct in an any");
    });
    x.join();
    y.join();
  }
  end(0);
}

namespace {
struct Counted : Own {
  Counted() : Own(0) { mc::add(116, 1); }
  ~Counted() { mc::add(117, 1); mc::set(120, 0); }
};
mc::Bounds wide() {
  mc::Bounds b = cold(0);
  b.horizon = 2000000;
  b.accesses = 2000000000;
  return b;
}
}  // namespace
// Very many descriptions, and very many references.
MC_SCENARIO(c20_many, wide(), wide()) {
  static const int counts[] = {70, 300, 1000, 70000};
  int n = counts[mc::choose(4, "count")];
  bool refs = mc::choose(2, "references") || n == 70000;
  std::vector<const TypeInfo*> ti;
  auto first = use(4);
  if (refs) {
    for (int i = 0; i < n; i++) dap::initialize();
    for (int i = 0; i < n; i++) dap::terminate();
  } else {
    ti.reserve(n);
    for (int i = 0; i < n; i++) ti.push_back(TypeInfo::create<Counted>());
  }
  if (mc::get(117)) mc::fail("%ld of %d descriptions are destroyed while in use", mc::get(117), n);
  for (auto t : ti)
    if (t->name().size() < 20) mc::fail("description unusable");
  if (use(4) != first) mc::fail("the description changed");
  std::vector<const TypeInfo*>().swap(ti);
  end(0);
  if (!refs && mc::get(117) != n) mc::fail("%d descriptions were made, %ld destroyed", n, mc::get(117));
}
