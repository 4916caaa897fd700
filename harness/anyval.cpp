// C16: dap::any.  All histories of operations on a few any objects, against a
// reference model; ASan and a live-object registry watch the contents.
#include "common.h"
#include "dap/any.h"
#include "dap/typeof.h"
#include "dap/types.h"

#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <new>
#include <string>
#include <vector>

// Memory is only aligned as far as the language promises: 16 but not 32 bytes.
// The end of each block is exact, so that ASan sees overruns.
static void* unaligned(size_t n) {
  void* p = nullptr;
  if (posix_memalign(&p, 512, n + 16)) abort();
  return static_cast<char*>(p) + 16;
}
static void release(void* p) {
  if (p) ::free(static_cast<char*>(p) - 16);
}
void* operator new(size_t n) { return unaligned(n); }
void* operator new[](size_t n) { return unaligned(n); }
void operator delete(void* p) noexcept { release(p); }
void operator delete[](void* p) noexcept { release(p); }
void operator delete(void* p, size_t) noexcept { release(p); }
void operator delete[](void* p, size_t) noexcept { release(p); }

namespace track {
struct Rec { const void* p; int kind; };
static Rec live[256];
static int n;
static void born(const void* p, int kind, size_t align) {
  if (reinterpret_cast<uintptr_t>(p) % align) mc::fail("a contained value is constructed at a misaligned address");
  for (int i = 0; i < n; i++)
    if (live[i].p == p) mc::fail("a value is constructed on top of a live one");
  if (n >= 256) mc::fail("too many live values");
  live[n++] = Rec{p, kind};
}
static void dead(const void* p, int kind) {
  for (int i = 0; i < n; i++)
    if (live[i].p == p) {
      if (live[i].kind != kind) mc::fail("a value is destroyed as another type");
      live[i] = live[--n];
      return;
    }
  mc::fail("a value is destroyed that is not live (destroyed twice or never constructed)");
}
static void use(const void* p) {
  for (int i = 0; i < n; i++)
    if (live[i].p == p) return;
  mc::fail("a value is used that is not live");
}
}  // namespace track

namespace dap {
template <int K, size_t SIZE, size_t ALIGN>
struct alignas(ALIGN) Tracked {
  int v;
  Tracked* self;
  char pad[SIZE];
  Tracked(int v = 0) : v(v), self(this) { track::born(this, K, ALIGN); fill(); }
  Tracked(const Tracked& o) : v(o.v), self(this) { o.check(); track::born(this, K, ALIGN); fill(); }
  Tracked& operator=(const Tracked& o) { check(); o.check(); v = o.v; fill(); return *this; }
  ~Tracked() { check(); track::dead(this, K); v = -1; self = nullptr; }
  void fill() { for (size_t i = 0; i < SIZE; i++) pad[i] = char(v + i); }
  void check() const {
    track::use(this);
    if (self != this) mc::fail("a contained value was moved bytewise");
    for (size_t i = 0; i < SIZE; i++) if (pad[i] != char(v + i)) mc::fail("a contained value is corrupted");
  }
};
// in the internal buffer / exactly filling it / just not / on the heap / aligned
struct TSmall : Tracked<1, 4, 8> { using Tracked::Tracked; };
struct TExact : Tracked<2, 16, 8> { using Tracked::Tracked; };     // 32 bytes
struct TBig : Tracked<3, 40, 8> { using Tracked::Tracked; };
struct TAlign : Tracked<4, 48, 64> { using Tracked::Tracked; };    // 64 bytes, no padding
struct TAlign16 : Tracked<5, 16, 16> { using Tracked::Tracked; };  // may or may not fit
struct TAlign32 : Tracked<6, 80, 32> { using Tracked::Tracked; };  // 96 bytes
// sizes and alignments that do not fit 8 or 16 bits, or a cache line
struct T300 : Tracked<7, 240, 8> { using Tracked::Tracked; };      // 256 bytes
struct T70k : Tracked<8, 70000, 8> { using Tracked::Tracked; };
struct TA128 : Tracked<9, 112, 128> { using Tracked::Tracked; };
struct TA256 : Tracked<10, 240, 256> { using Tracked::Tracked; };
// Contents of any address: as large as the internal buffer, a byte more, less.
template <int K, size_t SIZE>
struct Bytes {
  signed char v;
  char pad[SIZE - 1];
  Bytes(int v = 0) : v((signed char)v) { track::born(this, K, 1); fill(); }
  Bytes(const Bytes& o) : v(o.v) { o.check(); track::born(this, K, 1); fill(); }
  Bytes& operator=(const Bytes& o) { check(); o.check(); v = o.v; fill(); return *this; }
  ~Bytes() { check(); track::dead(this, K); v = -1; }
  void fill() { for (size_t i = 0; i < SIZE - 1; i++) pad[i] = char(v + i); }
  void check() const {
    track::use(this);
    for (size_t i = 0; i < SIZE - 1; i++) if (pad[i] != char(v + i)) mc::fail("a contained value is corrupted");
  }
};
struct TB31 : Bytes<11, 31> { using Bytes::Bytes; };
struct TB32 : Bytes<12, 32> { using Bytes::Bytes; };
struct TB33 : Bytes<13, 33> { using Bytes::Bytes; };
struct TB34 : Bytes<14, 34> { using Bytes::Bytes; };
#define TT(T, N)                                                                             \
  template <> struct TypeOf<T> {                                                             \
    static constexpr bool has_custom_serialization = true;                                   \
    static const TypeInfo* type() {                                                          \
      struct TI : TypeInfo {                                                                 \
        std::string name() const override { return N; }                                      \
        size_t size() const override { return sizeof(T); }                                   \
        size_t alignment() const override { return alignof(T); }                             \
        void construct(void* p) const override { new (p) T(); }                              \
        void copyConstruct(void* d, const void* s) const override { new (d) T(*(const T*)s); } \
        void destruct(void* p) const override { ((T*)p)->~T(); }                             \
        bool deserialize(const Deserializer*, void*) const override { return false; }        \
        bool serialize(Serializer*, const void*) const override { return false; }            \
      };                                                                                     \
      static TI ti;                                                                          \
      return &ti;                                                                            \
    }                                                                                        \
  };
TT(TSmall, "s") TT(TExact, "e") TT(TBig, "b") TT(TAlign, "a") TT(TAlign16, "a16") TT(TAlign32, "a32")
TT(T300, "300") TT(T70k, "70k") TT(TA128, "a128") TT(TA256, "a256")
TT(TB31, "b31") TT(TB32, "b32") TT(TB33, "b33") TT(TB34, "b34")
}  // namespace dap

namespace {
using dap::any;

enum Kind { kNull, kBool, kInt, kNum, kStr, kSmall, kExact, kBig, kAlign, kAlign16, kAlign32, k300, k70k, kA128, kA256, kB31, kB32, kB33, kB34, kArr, kObj, kAny, kNone /*unspecified*/ };

// Model of an any: kind, value, nested content of arrays/objects.
struct Mod {
  int kind = kNull;
  int v = 0;
  std::vector<Mod> kids;
};

any makeLeaf(const Mod& m);

void assignTo(any& a, const Mod& m) {
  switch (m.kind) {
    case kNull: a = nullptr; break;
    case kBool: a = dap::boolean(m.v & 1); break;
    case kInt: a = dap::integer(m.v); break;
    case kNum: a = dap::number(m.v + 0.5); break;
    case kStr: a = dap::string(40, char('a' + m.v)); break;
    case kSmall: a = dap::TSmall(m.v); break;
    case kExact: a = dap::TExact(m.v); break;
    case kBig: a = dap::TBig(m.v); break;
    case kAlign: a = dap::TAlign(m.v); break;
    case kAlign16: a = dap::TAlign16(m.v); break;
    case kAlign32: a = dap::TAlign32(m.v); break;
    case k300: a = dap::T300(m.v); break;
    case k70k: a = dap::T70k(m.v); break;
    case kA128: a = dap::TA128(m.v); break;
    case kA256: a = dap::TA256(m.v); break;
    case kB31: a = dap::TB31(m.v); break;
    case kB32: a = dap::TB32(m.v); break;
    case kB33: a = dap::TB33(m.v); break;
    case kB34: a = dap::TB34(m.v); break;
    case kArr: {
      dap::array<any> arr;
      for (auto& k : m.kids) arr.push_back(makeLeaf(k));
      a = arr;
      break;
    }
    case kObj: {
      dap::object o;
      int i = 0;
      for (auto& k : m.kids) o["k" + std::to_string(i++)] = makeLeaf(k);
      a = o;
      break;
    }
  }
}
any makeLeaf(const Mod& m) {
  any a;
  assignTo(a, m);
  return a;
}

template <typename T>
void noT(const any& a, const char* n) {
  if (a.is<T>()) mc::fail("an any claims to hold %s, which it does not", n);
}
void check(const any& a, const Mod& m) {
  if (m.kind == kNone) return;
#define IS(K, T) if (m.kind == K) { if (!a.is<T>()) mc::fail("an any does not hold the " #T " it was given"); } else noT<T>(a, #T)
  IS(kNull, dap::null);
  IS(kBool, dap::boolean);
  IS(kInt, dap::integer);
  IS(kNum, dap::number);
  IS(kStr, dap::string);
  IS(kSmall, dap::TSmall);
  IS(kExact, dap::TExact);
  IS(kBig, dap::TBig);
  IS(kAlign, dap::TAlign);
  IS(kAlign16, dap::TAlign16);
  IS(kAlign32, dap::TAlign32);
  IS(k300, dap::T300);
  IS(k70k, dap::T70k);
  IS(kA128, dap::TA128);
  IS(kA256, dap::TA256);
  IS(kB31, dap::TB31);
  IS(kB32, dap::TB32);
  IS(kB33, dap::TB33);
  IS(kB34, dap::TB34);
  IS(kArr, dap::array<any>);
  IS(kObj, dap::object);
  auto bad = [&] { mc::fail("an any holds a wrong value (kind %d, want %d)", m.kind, m.v); };
#define TV(K, T) case K: a.get<T>().check(); if (a.get<T>().v != m.v) bad(); break
  switch (m.kind) {
    case kBool: if (bool(a.get<dap::boolean>()) != bool(m.v & 1)) bad(); break;
    case kInt: if (int64_t(a.get<dap::integer>()) != m.v) bad(); break;
    case kNum: if (double(a.get<dap::number>()) != m.v + 0.5) bad(); break;
    case kStr: if (a.get<dap::string>() != std::string(40, char('a' + m.v))) bad(); break;
    TV(kSmall, dap::TSmall);
    TV(kExact, dap::TExact);
    TV(kBig, dap::TBig);
    TV(kAlign, dap::TAlign);
    TV(kAlign16, dap::TAlign16);
    TV(kAlign32, dap::TAlign32);
    TV(k300, dap::T300);
    TV(k70k, dap::T70k);
    TV(kA128, dap::TA128);
    TV(kA256, dap::TA256);
    TV(kB31, dap::TB31);
    TV(kB32, dap::TB32);
    TV(kB33, dap::TB33);
    TV(kB34, dap::TB34);
    case kArr: {
      auto& arr = a.get<dap::array<any>>();
      if (arr.size() != m.kids.size()) bad();
      for (size_t i = 0; i < arr.size(); i++) check(arr[i], m.kids[i]);
      break;
    }
    case kObj: {
      auto& o = a.get<dap::object>();
      if (o.size() != m.kids.size()) bad();
      for (size_t i = 0; i < m.kids.size(); i++) {
        auto it = o.find("k" + std::to_string(i));
        if (it == o.end()) bad();
        else check(it->second, m.kids[i]);
      }
      break;
    }
  }
}

bool mutate(any& a, Mod& m) {
  m.v++;
  switch (m.kind) {
    case kInt: a.get<dap::integer>() = m.v; return true;
    case kStr: a.get<dap::string>() = std::string(40, char('a' + m.v)); return true;
    case kSmall: a.get<dap::TSmall>() = dap::TSmall(m.v); return true;
    case kBig: a.get<dap::TBig>() = dap::TBig(m.v); return true;
    case kAlign: a.get<dap::TAlign>() = dap::TAlign(m.v); return true;
    case k70k: a.get<dap::T70k>() = dap::T70k(m.v); return true;
    case kA256: a.get<dap::TA256>() = dap::TA256(m.v); return true;
    case kArr:
      m.v--;
      m.kids.push_back(Mod{kInt, 7, {}});
      a.get<dap::array<any>>().push_back(dap::integer(7));
      return true;
  }
  m.v--;
  return false;
}

const int kLeafKinds[] = {kNull, kInt, kStr, kSmall, kExact, kBig, kAlign, kAlign16, kBool, kNum, kAlign32};

Mod value(int k, int salt) {
  if (k < 11) return Mod{kLeafKinds[k], salt & 7, {}};
  if (k == 11) return Mod{kArr, 0, {Mod{kBig, 2, {}}, Mod{kSmall, 3, {}}}};
  if (k == 12) return Mod{kArr, 0, {Mod{kArr, 0, {Mod{kStr, 1, {}}, Mod{kBig, 1, {}}}}}};
  if (k == 13) return Mod{kObj, 0, {Mod{kStr, 4, {}}, Mod{kBig, 5, {}}}};
  if (k == 14) return Mod{kArr, 0, {}};
  if (k == 15) return Mod{kArr, 0, {Mod{kSmall, 4, {}}}};
  if (k == 16) return Mod{kArr, 0, {Mod{kStr, 5, {}}, Mod{kInt, 6, {}}}};
  if (k == 17) return Mod{kArr, 0, {Mod{kInt, 6, {}}}};
  if (k < 22) return Mod{k300 + (k - 18), salt & 7, {}};
  if (k == 22) return Mod{kArr, 0, {Mod{kA256, 1, {}}, Mod{k70k, 2, {}}}};
  return Mod{kB31 + (k - 23), salt & 7, {}};
}

// The any objects live in raw storage so that their bounds are watched and
// construction is explicit; the memory is pre-filled with a pattern that the
// code under test must not depend on.
struct Slots {
  int n;
  any* a[3];
  Mod m[3];
  bool up[3];
  explicit Slots(int n) : n(n) {
    for (int i = 0; i < n; i++) {
      void* mem = ::operator new(sizeof(any));
      memset(mem, 0xA5, sizeof(any));
      a[i] = new (mem) any();
      up[i] = true;
    }
  }
  ~Slots() {
    for (int i = 0; i < n; i++) {
      a[i]->~any();
      ::operator delete(a[i]);
    }
  }
  void check() {
    for (int i = 0; i < n; i++) ::check(*a[i], m[i]);
  }
};

void history(int slots, int depth, int values, int first = 0) {
  {
    Slots s(slots);
    for (int d = 0; d < depth; d++) {
      // 0: assign a value, 1: copy assign, 2: move assign, 3: copy construct,
      // 4: move construct, 5: reset, 6: mutate, 7: assign from own content,
      // 8: move from own content, 9: construct from value, 10: take typed content
      int op = mc::choose(11, "op");
      int i = mc::choose(slots, "target");
      any& t = *s.a[i];
      switch (op) {
        case 0: {
          Mod v = value(first + mc::choose(values, "value"), d);
          assignTo(t, v);
          s.m[i] = v;
          break;
        }
        case 1: {
          int j = mc::choose(slots, "source");
          any& r = (t = *s.a[j]);
          MC_CHECK(&r == &t, "");
          s.m[i] = Mod(s.m[j]);
          break;
        }
        case 2: {
          int j = mc::choose(slots, "source");
          t = std::move(*s.a[j]);
          if (i != j) {
            s.m[i] = s.m[j];
            s.m[j] = Mod{kNone, 0, {}};
          }
          break;
        }
        case 3: {
          int j = mc::choose(slots, "source");
          if (i == j) mc::discard();
          t.~any();
          memset(&t, 0xA5, sizeof(any));
          new (&t) any(*s.a[j]);
          s.m[i] = s.m[j];
          break;
        }
        case 4: {
          int j = mc::choose(slots, "source");
          if (i == j) mc::discard();
          t.~any();
          memset(&t, 0xA5, sizeof(any));
          new (&t) any(std::move(*s.a[j]));
          s.m[i] = s.m[j];
          s.m[j] = Mod{kNone, 0, {}};
          break;
        }
        case 5:
          t.reset();
          s.m[i] = Mod();
          break;
        case 6:
          if (s.m[i].kind == kNone || !mutate(t, s.m[i])) mc::discard();
          break;
        case 7:
        case 8: {
          if (s.m[i].kind != kArr || s.m[i].kids.empty()) mc::discard();
          Mod k = s.m[i].kids[0];
          if (op == 7) t = t.get<dap::array<any>>()[0];
          else t = std::move(t.get<dap::array<any>>()[0]);
          s.m[i] = k;
          break;
        }
        case 9: {
          Mod v = value(first + mc::choose(values, "value"), d + 1);
          t.~any();
          memset(&t, 0xA5, sizeof(any));
          any src = makeLeaf(v);
          switch (v.kind) {
            case kInt: new (&t) any(src.get<dap::integer>()); break;
            case kBig: new (&t) any(src.get<dap::TBig>()); break;
            case kSmall: new (&t) any(src.get<dap::TSmall>()); break;
            case kAlign: new (&t) any(src.get<dap::TAlign>()); break;
            case k300: new (&t) any(src.get<dap::T300>()); break;
            case k70k: new (&t) any(src.get<dap::T70k>()); break;
            case kA128: new (&t) any(src.get<dap::TA128>()); break;
            case kA256: new (&t) any(src.get<dap::TA256>()); break;
            case kB31: new (&t) any(src.get<dap::TB31>()); break;
            case kB32: new (&t) any(src.get<dap::TB32>()); break;
            case kB33: new (&t) any(src.get<dap::TB33>()); break;
            case kB34: new (&t) any(src.get<dap::TB34>()); break;
            case kStr: new (&t) any(src.get<dap::string>()); break;
            case kArr: new (&t) any(src.get<dap::array<any>>()); break;
            default: new (&t) any(std::move(src)); break;
          }
          s.m[i] = v;
          break;
        }
        case 10: {
          // assign from a typed value held by the any's own content
          if (s.m[i].kind != kArr || s.m[i].kids.empty()) mc::discard();
          Mod k = s.m[i].kids[0];
          auto& arr = t.get<dap::array<any>>();
          switch (k.kind) {
            case kBig: t = arr[0].get<dap::TBig>(); break;
            case kSmall: t = arr[0].get<dap::TSmall>(); break;
            case kInt: t = arr[0].get<dap::integer>(); break;
            case kStr: t = arr[0].get<dap::string>(); break;
            case kArr: t = arr[0].get<dap::array<any>>(); break;
            default: mc::discard();
          }
          s.m[i] = k;
          break;
        }
      }
      s.check();
    }
    s.check();
    std::string o;
    for (int i = 0; i < slots; i++) o += std::to_string(s.m[i].kind) + ",";
    mc::outcome(o);
  }
  if (track::n != 0) {
    int n = track::n;
    track::n = 0;
    mc::fail("%d contained values are never destroyed", n);
  }
}
}  // namespace

MC_SCENARIO(any_two, pb(0), pb(0)) {
  track::n = 0;
  history(2, mc::thorough() ? 4 : 3, 18);
}
MC_SCENARIO(any_two_deep, pb(0), pb(0)) {
  track::n = 0;
  // fewer kinds of values, longer histories: null, small and heap values
  static const int keep = 0;
  (void)keep;
  history(2, mc::thorough() ? 5 : 4, 6);
}
// Large and strongly aligned contents.
MC_SCENARIO(any_sizes, pb(0), pb(0)) {
  track::n = 0;
  history(2, mc::thorough() ? 4 : 3, 5, 18);
}
MC_SCENARIO(any_bytes, pb(0), pb(0)) {
  track::n = 0;
  history(2, mc::thorough() ? 4 : 3, 4, 23);
}
MC_SCENARIO_THOROUGH(any_three, pb(0)) {
  track::n = 0;
  history(3, 4, 7);
}
// A container of any that is grown, erased and reassigned.
MC_SCENARIO(any_in_vector, pb(0), pb(0)) {
  track::n = 0;
  {
    std::vector<any> v;
    std::vector<Mod> m;
    int depth = mc::thorough() ? 6 : 5;
    for (int d = 0; d < depth; d++) {
      switch (mc::choose(5, "op")) {
        case 0: {
          Mod x = value(mc::choose(8, "value"), d);
          v.push_back(makeLeaf(x));
          m.push_back(x);
          break;
        }
        case 1:
          if (v.empty()) mc::discard();
          v.erase(v.begin());
          m.erase(m.begin());
          break;
        case 2: {
          Mod x = value(mc::choose(8, "value"), d);
          v.insert(v.begin(), makeLeaf(x));
          m.insert(m.begin(), x);
          break;
        }
        case 3: {
          if (v.size() < 2) mc::discard();
          std::swap(v[0], v[1]);
          std::swap(m[0], m[1]);
          break;
        }
        case 4: {
          std::vector<any> w = v;
          v = w;
          break;
        }
      }
      MC_CHECK(v.size() == m.size(), "");
      for (size_t i = 0; i < v.size(); i++) check(v[i], m[i]);
    }
  }
  if (track::n != 0) mc::fail("%d contained values are never destroyed", track::n);
}
