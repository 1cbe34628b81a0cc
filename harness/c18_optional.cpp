// C18: optional behaves as an optional value under every history.
#include "json.h"

#include "dap/optional.h"
#include "dap/types.h"

#include <memory>
#include <optional>
#include <string>
#include <unordered_set>
#include <vector>

namespace {
using pbt::Case;

// A value type that tracks its instances, and can be compared with Other.
struct Other {
  int64_t id = 0;
};
struct Tracked {
  static std::unordered_set<const void*>& live() {
    static std::unordered_set<const void*> s;
    return s;
  }
  int64_t id = 0;
  std::string text;
  Tracked() { born(); }
  Tracked(int64_t i) : id(i), text(std::to_string(i) + "................................") { born(); }
  Tracked(const Other& o) : Tracked(o.id) {}
  Tracked(const Tracked& o) : id(o.id), text(o.text) {
    o.check();
    born();
  }
  Tracked(Tracked&& o) : id(o.id), text(std::move(o.text)) {
    o.check();
    born();
  }
  Tracked& operator=(const Tracked& o) {
    check();
    o.check();
    id = o.id;
    text = o.text;
    return *this;
  }
  Tracked& operator=(Tracked&& o) {
    check();
    o.check();
    id = o.id;
    text = std::move(o.text);
    return *this;
  }
  ~Tracked() {
    check();
    live().erase(this);
  }
  void born() { live().insert(this); }
  void check() const {
    if (!live().count(this)) pbt::failNow("a value that is not alive is used");
  }
};
#define CMP(OP)                                                                        \
  bool operator OP(const Tracked& a, const Tracked& b) { return a.id OP b.id; }        \
  bool operator OP(const Other& a, const Tracked& b) { return a.id OP b.id; }          \
  bool operator OP(const Tracked& a, const Other& b) { return a.id OP b.id; }          \
  bool operator OP(const Other& a, const Other& b) { return a.id OP b.id; }
CMP(==) CMP(!=) CMP(<) CMP(<=) CMP(>) CMP(>=)
#undef CMP

// How to make and read the values of a type.
template <typename T>
struct G;
template <>
struct G<int> {
  static int gen(Case& c) { return int(c.draw(5)) - 2; }
  static std::string str(int v) { return std::to_string(v); }
};
template <>
struct G<double> {
  static double gen(Case& c) { return double(c.draw(9)) / 2 - 2; }
  static std::string str(double v) { return pbt::fmt("%g", v); }
};
template <>
struct G<dap::integer> {
  static dap::integer gen(Case& c) { return dap::integer(h::genInt(c)); }
  static std::string str(const dap::integer& v) { return std::to_string(int64_t(v)); }
};
template <>
struct G<std::string> {
  static std::string gen(Case& c) { return std::string(c.draw(3) * 11, char('a' + c.draw(3))); }
  static std::string str(const std::string& v) { return v; }
};
template <>
struct G<dap::array<dap::integer>> {
  static dap::array<dap::integer> gen(Case& c) {
    dap::array<dap::integer> a;
    for (size_t n = c.draw(4); n > 0; n--) a.push_back(dap::integer(int64_t(c.draw(3))));
    return a;
  }
  static std::string str(const dap::array<dap::integer>& v) {
    std::string s = "[";
    for (size_t i = 0; i < v.size(); i++) s += std::to_string(int64_t(v[i])) + " ";
    return s + "]";
  }
};
template <>
struct G<Tracked> {
  static Tracked gen(Case& c) { return Tracked(int64_t(c.draw(5))); }
  static std::string str(const Tracked& v) {
    v.check();
    return std::to_string(v.id) + v.text;
  }
};
template <>
struct G<Other> {
  static Other gen(Case& c) { return Other{int64_t(c.draw(5))}; }
  static std::string str(const Other& v) { return std::to_string(v.id); }
};

// An optional, and the reference.
template <typename T>
struct Slot {
  std::unique_ptr<dap::optional<T>> o{new dap::optional<T>()};
  std::optional<T> m;
  bool unknown = false;  // the value was moved out
};

template <typename T>
void check(Case& c, Slot<T>& s, const char* after) {
  dap::optional<T>& o = *s.o;
  const dap::optional<T>& k = o;
  if (k.has_value() != s.m.has_value()) {
    c.fail("after %s: has_value() is %d", after, int(k.has_value()));
  }
  if (bool(k) != s.m.has_value()) c.fail("after %s: the boolean test is %d", after, int(bool(k)));
  if (s.unknown) return;
  T def = G<T>::gen(c);
  std::string want = G<T>::str(s.m ? *s.m : def);
  if (G<T>::str(k.value(def)) != want) {
    c.fail("after %s: value(default) is %s instead of %s", after,
           G<T>::str(k.value(def)).c_str(), want.c_str());
  }
  if (s.m) {
    if (G<T>::str(k.value()) != want || G<T>::str(o.value()) != want || G<T>::str(*k) != want ||
        G<T>::str(*o) != want || G<T>::str(*k.operator->()) != want ||
        G<T>::str(*o.operator->()) != want) {
      c.fail("after %s: the value is %s instead of %s", after, G<T>::str(*k).c_str(), want.c_str());
    }
  }
}

template <typename A, typename B>
void compare(Case& c, Slot<A>& a, Slot<B>& b) {
  if (a.unknown || b.unknown) return;
#define CMP(OP)                                                                       \
  {                                                                                   \
    bool got = *a.o OP *b.o, want = a.m OP b.m;                                       \
    if (got != want) {                                                                \
      c.fail("%s " #OP " %s is %d", a.m ? G<A>::str(*a.m).c_str() : "empty",          \
             b.m ? G<B>::str(*b.m).c_str() : "empty", int(got));                      \
    }                                                                                 \
  }
  CMP(==) CMP(!=) CMP(<) CMP(<=) CMP(>) CMP(>=)
#undef CMP
}
template <typename A, typename B>
void compareEq(Case& c, Slot<A>& a, Slot<B>& b) {
  if (a.unknown || b.unknown) return;
  if ((*a.o == *b.o) != (a.m == b.m) || (*a.o != *b.o) != (a.m != b.m)) {
    c.fail("%s and %s compare wrongly", a.m ? G<A>::str(*a.m).c_str() : "empty",
           b.m ? G<B>::str(*b.m).c_str() : "empty");
  }
}

// One operation within a type.
template <typename T>
std::string same(Case& c, std::vector<Slot<T>>& v) {
  size_t i = c.draw(v.size()), j = c.draw(v.size());
  auto &a = v[i], &b = v[j];
  switch (c.draw(13)) {
    case 0: {
      T t = G<T>::gen(c);
      *a.o = t;
      a.m = t;
      a.unknown = false;
      return "= value";
    }
    case 1: {
      T t = G<T>::gen(c);
      a.m = t;
      *a.o = std::move(t);
      a.unknown = false;
      return "= moved value";
    }
    case 2:
      *a.o = *b.o;
      a.m = b.m;
      a.unknown = b.unknown;
      return i == j ? "= itself" : "= other";
    case 3:
      if (i == j) return "";
      *a.o = std::move(*b.o);
      a.m = b.m;
      a.unknown = b.unknown;
      if (b.m) b.unknown = true;
      return "= move other";
    case 4: {
      std::unique_ptr<dap::optional<T>> n(new dap::optional<T>(*b.o));
      auto m = b.m;
      bool u = b.unknown;
      a.o = std::move(n);
      a.m = m;
      a.unknown = u;
      return "copy construct";
    }
    case 5: {
      if (i == j) return "";
      a.o.reset(new dap::optional<T>(std::move(*b.o)));
      a.m = b.m;
      a.unknown = b.unknown;
      if (b.m) b.unknown = true;
      return "move construct";
    }
    case 6: {
      T t = G<T>::gen(c);
      a.o.reset(new dap::optional<T>(t));
      a.m = t;
      a.unknown = false;
      return "construct from value";
    }
    case 7:
      a.o.reset(new dap::optional<T>());
      a.m.reset();
      a.unknown = false;
      return "construct empty";
    case 8:
      *a.o = dap::optional<T>();
      a.m.reset();
      a.unknown = false;
      return "= empty";
    case 9: {
      if (!a.m) return "";
      T t = G<T>::gen(c);
      switch (c.draw(3)) {
        case 0: a.o->value() = t; break;
        case 1: **a.o = t; break;
        default: *a.o->operator->() = t;
      }
      a.m = t;
      a.unknown = false;
      return "changed in place";
    }
    case 10:
      if (!a.m || a.unknown) return "";
      *a.o = a.o->value();  // its own value
      return "= its value";
    case 11:
      if (i == j) return "";
      std::swap(*a.o, *b.o);
      std::swap(a.m, b.m);
      std::swap(a.unknown, b.unknown);
      return "swap";
    default: {
      auto f = [](dap::optional<T> x) { return x; };  // by value
      dap::optional<T> r = f(*b.o);
      auto m = b.m;
      bool u = b.unknown;
      *a.o = r;
      a.m = m;
      a.unknown = u;
      return "= returned";
    }
  }
}

// From an optional of another type.
template <typename T, typename U>
std::string mixed(Case& c, std::vector<Slot<T>>& v, std::vector<Slot<U>>& w) {
  auto &a = v[c.draw(v.size())];
  auto &b = w[c.draw(w.size())];
  if (b.unknown) return "";
  std::optional<T> m;
  if (b.m) m = static_cast<T>(*b.m);
  a.unknown = false;
  a.m = m;
  const dap::optional<U>& cb = *b.o;
  switch (c.draw(4)) {
    case 0:
      a.o.reset(new dap::optional<T>(cb));
      return "construct from another type";
    case 1:
      a.o.reset(new dap::optional<T>(std::move(*b.o)));
      if (b.m) b.unknown = true;
      return "construct from moved another type";
    case 2:
      *a.o = cb;
      return "= another type";
    default:
      *a.o = std::move(*b.o);
      if (b.m) b.unknown = true;
      return "= moved another type";
  }
}

template <typename T>
std::vector<Slot<T>> slots() {
  return std::vector<Slot<T>>(3);
}

void run(Case& c) {
  auto ints = slots<int>();
  auto doubles = slots<double>();
  auto dints = slots<dap::integer>();
  auto strings = slots<std::string>();
  auto arrays = slots<dap::array<dap::integer>>();
  auto tracked = slots<Tracked>();
  auto others = slots<Other>();
  size_t steps = 1 + c.draw(24);
  std::string log;
  uint64_t hash = 1;
  // Two of the types per case.
  size_t focus = c.draw(4);
  for (size_t s = 0; s < steps; s++) {
    std::string what;
    switch (focus * 4 + c.draw(4)) {
      case 0: what = "int " + same(c, ints); break;
      case 1: what = "double " + same(c, doubles); break;
      case 2: what = "int from double " + mixed(c, ints, doubles); break;
      case 3: what = "double from int " + mixed(c, doubles, ints); break;
      case 4: what = "integer " + same(c, dints); break;
      case 5: what = "string " + same(c, strings); break;
      case 6: what = "integer " + same(c, dints); break;
      case 7: what = "string " + same(c, strings); break;
      case 8: what = "tracked " + same(c, tracked); break;
      case 9: what = "other " + same(c, others); break;
      case 10: what = "tracked from other " + mixed(c, tracked, others); break;
      case 11: what = "tracked " + same(c, tracked); break;
      default: what = "array " + same(c, arrays); break;
    }
    log += what + "; ";
    for (size_t i = 0; i < 3; i++) {
      if (focus == 0) check(c, ints[i], what.c_str()), check(c, doubles[i], what.c_str());
      if (focus == 1) check(c, dints[i], what.c_str()), check(c, strings[i], what.c_str());
      if (focus == 2) check(c, tracked[i], what.c_str()), check(c, others[i], what.c_str());
      if (focus == 3) check(c, arrays[i], what.c_str());
    }
    size_t i = c.draw(3), j = c.draw(3);
    switch (focus) {
      case 0:
        compare(c, ints[i], ints[j]);
        compare(c, ints[i], doubles[j]);
        compare(c, doubles[i], ints[j]);
        break;
      case 1:
        compare(c, strings[i], strings[j]);
        compareEq(c, dints[i], dints[j]);
        break;
      case 2:
        compare(c, tracked[i], tracked[j]);
        compare(c, tracked[i], others[j]);
        compare(c, others[i], tracked[j]);
        break;
    }
  }
  if (c.wantDescription()) c.describe(log);
  static const char* const names[] = {"int and double", "integer and string", "tracked", "array"};
  c.label(names[focus]);
  if (steps > 2) c.nontrivial(log);
}

void property(Case& c) {
  pbt::leakCheck(c, [&] { run(c); });
  if (!Tracked::live().empty()) c.fail("%zu values are never destroyed", Tracked::live().size());
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Options o;
  o.name = "c18_optional";
  o.rule =
      "A case is a history of up to 24 operations (construct, copy, move, assign "
      "values, optionals, other types, its own value, access, swap) on 3 optionals "
      "of each of one or two types, compared with std::optional after each step, "
      "with all six comparisons, value(default) and accessors; instances are "
      "tracked. Moved-from values are not read. Non-trivial: more than 2 "
      "operations; distinct: by the operations.";
  o.property = property;
  o.quickCases = 500000;
  o.thoroughCases = 30000000;
  o.quickCap = 30;
  return pbt::run(argc, argv, o);
}
