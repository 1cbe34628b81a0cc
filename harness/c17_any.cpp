// C17: any and variant are exact value types under every history.
#include "pbt.h"

#include "dap/any.h"
#include "dap/protocol.h"
#include "dap/typeof.h"
#include "dap/types.h"
#include "dap/variant.h"

#include <string.h>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace {
using pbt::Case;

// Every tracked object that is alive.
std::unordered_set<const void*>& live() {
  static std::unordered_set<const void*> s;
  return s;
}

template <size_t Size, size_t Align>
struct alignas(Align) Tracked {
  using Id = typename std::conditional<(Size > 8), int64_t, int16_t>::type;
  Id id = 0;
  uint8_t pad[Size - sizeof(Id)];

  Tracked() { born(); }
  Tracked(int64_t i) : id(Id(i)) { born(); }
  Tracked(const Tracked& o) {
    o.check("copied from");
    id = o.id;
    born();
  }
  Tracked& operator=(const Tracked& o) {
    check("assigned to");
    o.check("assigned from");
    id = o.id;
    memset(pad, int(id & 0xff), sizeof(pad));
    return *this;
  }
  ~Tracked() {
    check("destroyed");
    live().erase(this);
    id = -77;
  }
  void born() {
    if (reinterpret_cast<uintptr_t>(this) % Align != 0) {
      pbt::failNow("a value is constructed at a misaligned address");
    }
    if (!live().insert(this).second) {
      pbt::failNow("a value is constructed over a live one");
    }
    memset(pad, int(id & 0xff), sizeof(pad));
  }
  void check(const char* what) const {
    if (!live().count(this)) {
      pbt::failNow(std::string("a value that is not alive is ") + what);
    }
  }
  bool intact() const {
    for (auto p : pad) {
      if (p != uint8_t(id & 0xff)) return false;
    }
    return true;
  }
};
using T4 = Tracked<4, 2>;
using T8 = Tracked<8, 2>;
using T16 = Tracked<16, 8>;
using T32 = Tracked<32, 8>;     // just fits
using T40 = Tracked<40, 8>;     // just not
using T5000 = Tracked<5000, 8>;
using A16 = Tracked<16, 16>;
using A32 = Tracked<32, 32>;
using A64 = Tracked<64, 64>;
using Var = dap::variant<dap::integer, dap::string, T4, T16, T5000, A32, dap::array<dap::any>, dap::null>;

}  // namespace

namespace dap {
// Several types may have the same name, as the responses of the protocol do.
#define TRACKED(T, NAME)                                      \
  template <>                                                 \
  struct TypeOf<T> {                                          \
    static const TypeInfo* type() {                           \
      static BasicTypeInfo<T> t(NAME);                        \
      return &t;                                              \
    }                                                         \
  };
// The values are never serialized.
template <size_t S, size_t A>
class BasicTypeInfo<Tracked<S, A>> : public TypeInfo {
  using T = Tracked<S, A>;
 public:
  BasicTypeInfo(std::string n) : n(std::move(n)) {}
  std::string name() const override { return n; }
  size_t size() const override { return sizeof(T); }
  size_t alignment() const override { return alignof(T); }
  void construct(void* p) const override { new (p) T(); }
  void copyConstruct(void* d, const void* s) const override { new (d) T(*static_cast<const T*>(s)); }
  void destruct(void* p) const override { static_cast<T*>(p)->~T(); }
  bool deserialize(const Deserializer*, void*) const override { return false; }
  bool serialize(Serializer*, const void*) const override { return false; }
  std::string n;
};
TRACKED(T4, "T4")
TRACKED(T8, "")
TRACKED(T16, "")
TRACKED(T32, "")
TRACKED(T40, "T40")
TRACKED(T5000, "T40")
TRACKED(A16, "")
TRACKED(A32, "integer")
TRACKED(A64, "T40")
}  // namespace dap

namespace {

enum Kind {
  kNull, kInt, kBool, kNum, kStr, kArr, kObj, kInts, kSource, kT16, kT32, kT40, kT5000, kA16, kA32,
  kA64, kT4, kT8, kKinds
};
const char* const kindNames[] = {"null", "integer", "boolean", "number", "string", "array<any>",
                                 "object", "array<integer>", "struct", "T16", "T32", "T40", "T5000",
                                 "A16", "A32", "A64", "T4", "T8"};

// The model of a value.
struct M {
  Kind k = kNull;
  bool unknown = false;  // moved from
  int64_t i = 0;
  std::string s;
  std::vector<M> a;
  std::map<std::string, M> o;
};

std::string show(const M& m) {
  if (m.unknown) return "?";
  std::string r = kindNames[m.k];
  if (m.k == kStr) r += pbt::fmt(" of %zu", m.s.size());
  else if (m.k == kArr || m.k == kInts) {
    r += "[";
    for (auto& x : m.a) r += show(x) + " ";
    r += "]";
  } else if (m.k == kObj) {
    r += "{";
    for (auto& x : m.o) r += x.first + ":" + show(x.second) + " ";
    r += "}";
  } else if (m.k != kNull) {
    r += pbt::fmt(" %lld", (long long)m.i);
  }
  return r;
}

M gen(Case& c, int depth) {
  M m;
  do {
    m.k = Kind(c.draw(kKinds));
  } while (depth <= 0 && (m.k == kArr || m.k == kObj) && c.draw(2));
  switch (m.k) {
    case kNull: break;
    case kBool: m.i = int64_t(c.draw(2)); break;
    case kStr:
    case kSource:
      m.s = std::string(c.flip() ? c.draw(16) : 14 + c.draw(60), char('a' + c.draw(26)));
      break;
    case kArr: {
      size_t n = depth <= 0 ? 0 : c.draw(4);
      for (size_t i = 0; i < n; i++) m.a.push_back(gen(c, depth - 1));
      break;
    }
    case kObj: {
      size_t n = depth <= 0 ? 0 : c.draw(4);
      for (size_t i = 0; i < n; i++) m.o[std::string(1, char('a' + i))] = gen(c, depth - 1);
      break;
    }
    case kInts: {
      size_t n = c.draw(5);
      for (size_t i = 0; i < n; i++) {
        M e;
        e.k = kInt;
        e.i = int64_t(c.draw(100));
        m.a.push_back(e);
      }
      break;
    }
    default: m.i = int64_t(c.draw(1000));
  }
  return m;
}

dap::any make(const M& m);
dap::array<dap::any> makeArr(const M& m) {
  dap::array<dap::any> a;
  for (auto& x : m.a) a.push_back(make(x));
  return a;
}
dap::object makeObj(const M& m) {
  dap::object o;
  for (auto& x : m.o) o[x.first] = make(x.second);
  return o;
}
dap::array<dap::integer> makeInts(const M& m) {
  dap::array<dap::integer> a;
  for (auto& x : m.a) a.push_back(dap::integer(x.i));
  return a;
}
dap::Source makeSource(const M& m) {
  dap::Source s;
  s.path = m.s;
  return s;
}

// Calls f with the value, as its own type.
template <typename F>
void withValue(const M& m, F f) {
  switch (m.k) {
    case kNull: f(dap::null()); break;
    case kInt: f(dap::integer(m.i)); break;
    case kBool: f(dap::boolean(m.i != 0)); break;
    case kNum: f(dap::number(double(m.i) / 4)); break;
    case kStr: f(dap::string(m.s)); break;
    case kArr: f(makeArr(m)); break;
    case kObj: f(makeObj(m)); break;
    case kInts: f(makeInts(m)); break;
    case kSource: f(makeSource(m)); break;
    case kT4: f(T4(m.i)); break;
    case kT8: f(T8(m.i)); break;
    case kT16: f(T16(m.i)); break;
    case kT32: f(T32(m.i)); break;
    case kT40: f(T40(m.i)); break;
    case kT5000: f(T5000(m.i)); break;
    case kA16: f(A16(m.i)); break;
    case kA32: f(A32(m.i)); break;
    case kA64: f(A64(m.i)); break;
    case kKinds: break;
  }
}
dap::any make(const M& m) {
  dap::any r;
  withValue(m, [&](const auto& v) { r = v; });
  return r;
}

template <typename A>
Kind kindOf(Case& c, const A& a) {
  int n = 0;
  Kind k = kNull;
#define IS(T, K)      \
  if (a.template is<T>()) { \
    n++;              \
    k = K;            \
  }
  IS(dap::null, kNull)
  IS(dap::integer, kInt)
  IS(dap::boolean, kBool)
  IS(dap::number, kNum)
  IS(dap::string, kStr)
  IS(dap::array<dap::any>, kArr)
  IS(dap::object, kObj)
  IS(dap::array<dap::integer>, kInts)
  IS(dap::Source, kSource)
  IS(T16, kT16)
  IS(T32, kT32)
  IS(T40, kT40)
  IS(T5000, kT5000)
  IS(A16, kA16)
  IS(A32, kA32)
  IS(A64, kA64)
  IS(T4, kT4)
  IS(T8, kT8)
#undef IS
  if (n != 1) c.fail("%d type queries of an object answer true", n);
  return k;
}

template <typename T, typename A>
void checkTracked(Case& c, const A& a, const M& m, const char* where) {
  const T& t = a.template get<T>();
  t.check("held");
  if (t.id != m.i || !t.intact()) {
    c.fail("%s holds %lld instead of %s", where, (long long)t.id, show(m).c_str());
  }
}

template <typename A>
void check(Case& c, const A& a, const M& m, const char* where) {
  if (m.unknown) {
    kindOf(c, a);  // still a valid object
    return;
  }
  Kind k = kindOf(c, a);
  if (k != m.k) c.fail("%s holds a %s instead of %s", where, kindNames[k], show(m).c_str());
  if constexpr (std::is_same<A, dap::any>::value) {
    switch (k) {
      case kBool:
        if (a.template get<dap::boolean>() != dap::boolean(m.i != 0)) c.fail("%s: wrong boolean", where);
        return;
      case kNum:
        if (double(a.template get<dap::number>()) != double(m.i) / 4) c.fail("%s: wrong number", where);
        return;
      case kObj: {
        auto& o = a.template get<dap::object>();
        if (o.size() != m.o.size()) c.fail("%s has %zu fields instead of %zu", where, o.size(), m.o.size());
        for (auto& kv : m.o) {
          auto it = o.find(kv.first);
          if (it == o.end()) c.fail("%s has no field %s", where, kv.first.c_str());
          check(c, it->second, kv.second, where);
        }
        return;
      }
      case kInts: {
        auto& v = a.template get<dap::array<dap::integer>>();
        if (v.size() != m.a.size()) c.fail("%s has %zu elements instead of %zu", where, v.size(), m.a.size());
        for (size_t i = 0; i < v.size(); i++) {
          if (int64_t(v[i]) != m.a[i].i) c.fail("%s has a wrong element", where);
        }
        return;
      }
      case kSource:
        if (a.template get<dap::Source>().path.value("") != m.s) c.fail("%s has a wrong path", where);
        return;
      case kT8: return checkTracked<T8>(c, a, m, where);
      case kT32: return checkTracked<T32>(c, a, m, where);
      case kT40: return checkTracked<T40>(c, a, m, where);
      case kA16: return checkTracked<A16>(c, a, m, where);
      case kA64: return checkTracked<A64>(c, a, m, where);
      default: break;
    }
  }
  switch (k) {
    case kInt:
      if (int64_t(a.template get<dap::integer>()) != m.i) c.fail("%s: wrong integer", where);
      return;
    case kStr:
      if (a.template get<dap::string>() != m.s) c.fail("%s: wrong string", where);
      return;
    case kArr: {
      auto& v = a.template get<dap::array<dap::any>>();
      if (v.size() != m.a.size()) c.fail("%s has %zu elements instead of %zu", where, v.size(), m.a.size());
      for (size_t i = 0; i < v.size(); i++) check(c, v[i], m.a[i], where);
      return;
    }
    case kT4: return checkTracked<T4>(c, a, m, where);
    case kT16: return checkTracked<T16>(c, a, m, where);
    case kT5000: return checkTracked<T5000>(c, a, m, where);
    case kA32: return checkTracked<A32>(c, a, m, where);
    default: return;
  }
}

bool inVar(Kind k) {
  return k == kInt || k == kStr || k == kT4 || k == kT16 || k == kT5000 || k == kA32 || k == kArr || k == kNull;
}
template <typename F>
void withVarValue(const M& m, F f) {
  switch (m.k) {
    case kInt: f(dap::integer(m.i)); break;
    case kStr: f(dap::string(m.s)); break;
    case kArr: f(makeArr(m)); break;
    case kT4: f(T4(m.i)); break;
    case kT16: f(T16(m.i)); break;
    case kT5000: f(T5000(m.i)); break;
    case kA32: f(A32(m.i)); break;
    default: f(dap::null()); break;
  }
}
M genVar(Case& c) {
  M m;
  do m = gen(c, 1); while (!inVar(m.k) && c.draw(8));
  if (!inVar(m.k)) m = M();
  return m;
}

// Mutates the value through the reference that get() returns.
void poke(Case& c, dap::any& a, M& m) {
  switch (m.k) {
    case kInt:
      m.i = int64_t(c.draw(1000));
      a.get<dap::integer>() = m.i;
      break;
    case kStr:
      m.s += std::string(1 + c.draw(30), 'z');
      a.get<dap::string>() = m.s;
      break;
    case kT16:
      m.i = int64_t(c.draw(1000));
      a.get<T16>() = T16(m.i);
      break;
    case kT5000:
      m.i = int64_t(c.draw(1000));
      a.get<T5000>() = T5000(m.i);
      break;
    case kArr: {
      auto& v = a.get<dap::array<dap::any>>();
      if (v.empty() || c.flip()) {
        M e = gen(c, 1);
        v.push_back(make(e));
        m.a.push_back(e);
      } else if (c.flip()) {
        v.pop_back();
        m.a.pop_back();
      } else {
        size_t i = c.draw(v.size());
        if (m.a[i].unknown) return;
        poke(c, v[i], m.a[i]);
      }
      break;
    }
    case kObj: {
      auto& o = a.get<dap::object>();
      std::string k(1, char('a' + c.draw(5)));
      if (c.flip()) {
        M e = gen(c, 1);
        o[k] = make(e);
        m.o[k] = e;
      } else {
        o.erase(k);
        m.o.erase(k);
      }
      break;
    }
    default: break;
  }
}

void run(Case& c) {
  constexpr size_t N = 5;
  std::unique_ptr<dap::any> x[N];
  M m[N];
  std::unique_ptr<Var> v[2];
  M vm[2];
  std::vector<dap::any> vec;  // grows and shrinks
  std::vector<M> vecm;
  for (size_t i = 0; i < N; i++) x[i].reset(new dap::any());
  for (size_t i = 0; i < 2; i++) {
    v[i].reset(new Var());
    vm[i].k = kInt;
  }
  size_t steps = 1 + (c.flip() ? c.size(30) : c.draw(30));
  std::string log;
  bool keep = c.wantDescription();
  uint64_t hash = 3;
  for (size_t s = 0; s < steps; s++) {
    size_t i = c.draw(N), j = c.draw(N);
    uint64_t op = c.draw(22);
    std::string what;
    switch (op) {
      case 0:
      case 1: {  // a value of another or the same type
        M n = gen(c, 2);
        if (c.flip() && !m[i].unknown) {
          for (int t = 0; t < 6 && n.k != m[i].k; t++) n = gen(c, 2);
        }
        withValue(n, [&](const auto& val) { *x[i] = val; });
        m[i] = n;
        what = pbt::fmt("%zu = value", i);
        break;
      }
      case 2:
        *x[i] = *x[j];
        m[i] = m[j];
        what = pbt::fmt("%zu = %zu", i, j);
        break;
      case 3:
        if (i != j) {
          *x[i] = std::move(*x[j]);
          m[i] = m[j];
          m[j].unknown = true;
          what = pbt::fmt("%zu = move %zu", i, j);
        } else {  // keeps its value
          auto& self = *x[i];
          *x[i] = std::move(self);
          what = pbt::fmt("%zu = move itself", i);
        }
        break;
      case 4: {
        std::unique_ptr<dap::any> n(new dap::any(*x[j]));
        M nm = m[j];
        x[i] = std::move(n);
        m[i] = nm;
        what = pbt::fmt("%zu constructed from %zu", i, j);
        break;
      }
      case 5: {
        if (i == j) break;
        std::unique_ptr<dap::any> n(new dap::any(std::move(*x[j])));
        x[i] = std::move(n);
        m[i] = m[j];
        m[j].unknown = true;
        what = pbt::fmt("%zu constructed from move %zu", i, j);
        break;
      }
      case 6: {
        M n = gen(c, 2);
        withValue(n, [&](const auto& val) { x[i].reset(new dap::any(val)); });
        m[i] = n;
        what = pbt::fmt("%zu constructed from a value", i);
        break;
      }
      case 7:
        if (c.flip()) x[i]->reset(); else *x[i] = nullptr;
        m[i] = M();
        what = pbt::fmt("%zu reset", i);
        break;
      case 8:
      case 9: {  // from a part of itself
        if (m[i].unknown) break;
        if (m[i].k == kArr && !m[i].a.empty()) {
          auto& arr = x[i]->get<dap::array<dap::any>>();
          size_t e = c.draw(arr.size());
          M n = m[i].a[e];
          if (c.flip()) *x[i] = arr[e]; else *x[i] = std::move(arr[e]);
          m[i] = n;
          what = pbt::fmt("%zu = an element of itself", i);
        } else if (m[i].k == kObj && !m[i].o.empty()) {
          auto& o = x[i]->get<dap::object>();
          auto it = m[i].o.begin();
          M n = it->second;
          auto& part = o[it->first];
          if (c.flip()) *x[i] = part; else *x[i] = std::move(part);
          m[i] = n;
          what = pbt::fmt("%zu = a field of itself", i);
        }
        break;
      }
      case 10: {  // from its own contained value
        if (m[i].unknown) break;
        switch (m[i].k) {
          case kInt: *x[i] = x[i]->get<dap::integer>(); break;
          case kStr: *x[i] = x[i]->get<dap::string>(); break;
          case kArr: *x[i] = x[i]->get<dap::array<dap::any>>(); break;
          case kObj: *x[i] = x[i]->get<dap::object>(); break;
          case kT8: *x[i] = x[i]->get<T8>(); break;
          case kT16: *x[i] = x[i]->get<T16>(); break;
          case kT5000: *x[i] = x[i]->get<T5000>(); break;
          case kA32: *x[i] = x[i]->get<A32>(); break;
          default: break;
        }
        what = pbt::fmt("%zu = its contained value", i);
        break;
      }
      case 11: {  // a value that is held deeper inside
        if (m[i].unknown || m[i].k != kArr) break;
        auto& arr = x[i]->get<dap::array<dap::any>>();
        for (size_t e = 0; e < arr.size(); e++) {
          M n = m[i].a[e];
          if (n.unknown) continue;
          if (n.k == kStr) *x[i] = arr[e].get<dap::string>();
          else if (n.k == kT5000) *x[i] = arr[e].get<T5000>();
          else if (n.k == kArr) *x[i] = arr[e].get<dap::array<dap::any>>();
          else if (n.k == kObj) *x[i] = arr[e].get<dap::object>();
          else continue;
          m[i] = n;
          what = pbt::fmt("%zu = the value inside its element", i);
          break;
        }
        break;
      }
      case 12: {  // contains itself
        if (m[i].unknown || m[i].k != kArr || m[i].a.size() > 4) break;
        M old = m[i];
        x[i]->get<dap::array<dap::any>>().push_back(*x[i]);
        m[i].a.push_back(old);
        what = pbt::fmt("%zu gets a copy of itself as element", i);
        break;
      }
      case 13: {  // into another
        if (i == j || m[i].unknown || m[i].a.size() > 6) break;
        if (m[i].k == kArr) {
          x[i]->get<dap::array<dap::any>>().push_back(*x[j]);
          m[i].a.push_back(m[j]);
        } else if (m[i].k == kObj) {
          std::string k(1, char('a' + c.draw(5)));
          x[i]->get<dap::object>()[k] = *x[j];
          m[i].o[k] = m[j];
        } else {
          break;
        }
        what = pbt::fmt("%zu gets %zu inside", i, j);
        break;
      }
      case 14:
        if (m[i].unknown) break;
        poke(c, *x[i], m[i]);
        what = pbt::fmt("%zu changed in place", i);
        break;
      case 15:
        if (i == j) break;
        std::swap(*x[i], *x[j]);
        std::swap(m[i], m[j]);
        what = pbt::fmt("swap %zu %zu", i, j);
        break;
      case 16: {  // variant from a value
        M n = genVar(c);
        bool construct = c.flip();
        size_t k = i % 2;
        withVarValue(n, [&](const auto& val) {
          if (construct) v[k].reset(new Var(val)); else *v[k] = val;
        });
        vm[k] = n;
        what = pbt::fmt("variant %zu = value", k);
        break;
      }
      case 17: {
        size_t k = i % 2, l = j % 2;
        switch (c.draw(4)) {
          case 0:
            *v[k] = *v[l];
            vm[k] = vm[l];
            break;
          case 1: {
            std::unique_ptr<Var> n(new Var(*v[l]));
            v[k] = std::move(n);
            vm[k] = vm[l];
            break;
          }
          case 2:
            if (k == l) break;
            *v[k] = std::move(*v[l]);
            vm[k] = vm[l];
            vm[l].unknown = true;
            break;
          default:
            if (k == l) break;
            std::swap(*v[0], *v[1]);
            std::swap(vm[0], vm[1]);
            break;
        }
        what = pbt::fmt("variant %zu, %zu", k, l);
        break;
      }
      case 18: {
        vec.push_back(*x[i]);
        vecm.push_back(m[i]);
        what = pbt::fmt("push %zu", i);
        break;
      }
      case 19: {
        if (vec.empty()) break;
        size_t k = c.draw(vec.size());
        vec.erase(vec.begin() + long(k));
        vecm.erase(vecm.begin() + long(k));
        what = "erase";
        break;
      }
      case 20: {
        size_t k = c.draw(vec.size() + 1);
        vec.insert(vec.begin() + long(k), *x[i]);
        vecm.insert(vecm.begin() + long(k), m[i]);
        what = pbt::fmt("insert %zu", i);
        break;
      }
      default: {
        if (vec.empty()) break;
        size_t k = c.draw(vec.size());
        *x[i] = vec[k];
        m[i] = vecm[k];
        what = pbt::fmt("%zu = pushed %zu", i, k);
      }
    }
    hash = pbt::hashStr(what, hash);
    if (keep && !what.empty()) log += what + "; ";
    for (size_t k = 0; k < N; k++) check(c, *x[k], m[k], pbt::fmt("any %zu after step %zu", k, s).c_str());
    for (size_t k = 0; k < 2; k++) check(c, *v[k], vm[k], pbt::fmt("variant %zu after step %zu", k, s).c_str());
    if (s % 4 == 0 || s + 1 == steps) {
      for (size_t k = 0; k < vec.size(); k++) check(c, vec[k], vecm[k], "a pushed any");
    }
  }
  if (keep) c.describe(log);
  if (steps > 3) c.nontrivial(hash);
  c.label("steps", steps);
}

void property(Case& c) {
  pbt::leakCheck(c, [&] {
    run(c);
  });
  if (!live().empty()) c.fail("%zu values are never destroyed", live().size());
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Options o;
  o.name = "c17_any";
  o.rule =
      "A case is a history of up to 31 operations on 5 any, 2 variant objects and "
      "a vector of any (construct, copy, move, assign values of 18 types of sizes "
      "around the internal buffer and alignments to 64, from itself, from parts of "
      "itself, nested, changed in place, swapped, reset), compared with a model "
      "after each step; instances are tracked. Non-trivial: more than 3 "
      "operations; distinct: by the operations.";
  o.property = property;
  o.quickCases = 600000;
  o.thoroughCases = 20000000;
  o.quickCap = 30;
  return pbt::run(argc, argv, o);
}
