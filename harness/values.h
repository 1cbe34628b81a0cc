// Values of the DAP type system: generators, JSON meaning, schemas, and the
// three JSON back ends.
#pragma once

#include "json.h"

#include "dap/any.h"
#include "dap/optional.h"
#include "dap/protocol.h"
#include "dap/serialization.h"
#include "dap/typeof.h"
#include "dap/types.h"
#include "dap/variant.h"

#ifndef V_NO_BACKENDS
#include "jsoncpp_json_serializer.h"
#include "nlohmann_json_serializer.h"
#include "rapid_json_serializer.h"
#endif

#include <functional>
#include <memory>
#include <string>
#include <vector>

////////////////////////////////////////////////////////////////////////////////
// Struct types that cover every kind of field.
////////////////////////////////////////////////////////////////////////////////
// With V_DECLARE_ONLY they are defined by another translation unit.
#ifdef V_DECLARE_ONLY
#define V_TYPEINFO(T, ...) DAP_DECLARE_STRUCT_TYPEINFO(T)
#define V_TYPEINFO_EXT(T, ...) DAP_DECLARE_STRUCT_TYPEINFO(T)
#else
#define V_TYPEINFO DAP_STRUCT_TYPEINFO
#define V_TYPEINFO_EXT DAP_STRUCT_TYPEINFO_EXT
#endif

namespace dap {

struct VFlat {
  boolean b = false;
  integer i = 0;
  number n = 0;
  string s;
};
V_TYPEINFO(VFlat, "vflat", DAP_FIELD(b, "b"), DAP_FIELD(i, "int"),
                    DAP_FIELD(n, "num"), DAP_FIELD(s, "s\xc3\xa9"));

struct VOpt {
  optional<boolean> b;
  optional<integer> i;
  optional<number> n;
  optional<string> s;
  optional<any> a;
  optional<object> o;
  optional<array<integer>> l;
  optional<VFlat> f;
};
V_TYPEINFO(VOpt, "vopt", DAP_FIELD(b, "b"), DAP_FIELD(i, "i"),
                    DAP_FIELD(n, "n"), DAP_FIELD(s, "s"), DAP_FIELD(a, "a"),
                    DAP_FIELD(o, "o"), DAP_FIELD(l, "l"), DAP_FIELD(f, "f"));

struct VBase {
  integer base = 0;
  optional<string> note;
};
V_TYPEINFO(VBase, "vbase", DAP_FIELD(base, "base"), DAP_FIELD(note, "note"));

struct VDerived : public VBase {
  string extra;
  array<VFlat> flats;
};
V_TYPEINFO_EXT(VDerived, VBase, "vderived", DAP_FIELD(extra, "extra"),
                        DAP_FIELD(flats, "flats"));

// A derived struct of a derived struct, whose base is not the first one.
struct VTag {
  int tag[3] = {1, 2, 3};
};
struct VDeep : public VTag, public VDerived {
  optional<number> level;
  boolean deep = false;
};
V_TYPEINFO_EXT(VDeep, VDerived, "vdeep", DAP_FIELD(level, "level"),
                        DAP_FIELD(deep, "deep"));

struct VNested {
  VFlat flat;
  VOpt opt;
  VDerived derived;
  array<VOpt> opts;
  array<array<string>> grid;
  optional<array<VDerived>> more;
  optional<VBase> maybe;
  optional<VDeep> deep;
  null nothing = nullptr;
  object obj;
  any what = integer(0);
  variant<integer, string, boolean, number> var;
};
V_TYPEINFO(VNested, "vnested", DAP_FIELD(flat, "flat"), DAP_FIELD(opt, "opt"),
                    DAP_FIELD(derived, "derived"), DAP_FIELD(opts, "opts"),
                    DAP_FIELD(grid, "grid"), DAP_FIELD(more, "more"),
                    DAP_FIELD(maybe, "maybe"), DAP_FIELD(deep, "deep"), DAP_FIELD(nothing, "nothing"), DAP_FIELD(obj, "obj"),
                    DAP_FIELD(what, "what"), DAP_FIELD(var, "var"));

}  // namespace dap

namespace h {

using pbt::Case;

////////////////////////////////////////////////////////////////////////////////
// Schemas: which JSON documents denote a value of a type.
////////////////////////////////////////////////////////////////////////////////
struct Schema {
  enum Kind { Bool, Int, Num, Str, Null, Any, Obj, Arr, Struct };
  struct Field {
    std::string name;
    bool optional;
    std::shared_ptr<Schema> type;
  };
  Kind kind = Any;
  bool variant = false;  // takes any value, but only some are in the domain
  std::shared_ptr<Schema> elem;
  std::vector<Field> fields;

  // Returns true if j decodes, and the decoded value as it would be encoded.
  bool decode(const J& j, J* out) const {
    switch (kind) {
      case Bool:
        *out = j;
        return j.kind == J::Bool;
      case Int:
        *out = j;
        return j.kind == J::Int && !j.big;
      case Num:
        if (j.kind == J::Int) {
          *out = J::number(double(j.i));
          return true;
        }
        *out = j;
        return j.kind == J::Num;
      case Str:
        *out = j;
        return j.kind == J::Str;
      case Null:
        *out = j;
        return j.kind == J::Null;
      case Any:
        *out = j;
        return true;
      case Obj:
        *out = j;
        return j.kind == J::Obj;
      case Arr: {
        if (j.kind != J::Arr) return false;
        J r = J::arr();
        for (auto& e : j.a) {
          J x;
          if (!elem->decode(e, &x)) return false;
          r.push(x);
        }
        *out = r;
        return true;
      }
      case Struct: {
        if (j.kind != J::Obj) return false;
        J r = J::obj();
        for (auto& f : fields) {
          auto v = j.get(f.name);
          J x;
          if (v && f.type->decode(*v, &x)) {
            r.add(f.name, x);
          } else if (!f.optional) {
            return false;
          }
        }
        *out = r;
        return true;
      }
    }
    return false;
  }
};
using SchemaPtr = std::shared_ptr<Schema>;
inline SchemaPtr mkSchema(Schema::Kind k) {
  auto s = std::make_shared<Schema>();
  s->kind = k;
  return s;
}

// What may be generated.
struct Gen {
  int depth = 3;         // nesting
  bool badText = false;  // invalid UTF-8
  bool badNumbers = false;
  size_t maxLen = 4;     // of arrays and objects
  unsigned longs = 1000;  // one in so many arrays and objects is long; 0: none
};

// The length of a long array or object, mostly 0 for an ordinary one.
inline size_t longLen(Case& c, Gen& g) {
  if (!g.longs || !c.chance(1, g.longs)) return 0;
  g.longs = 0;
  static const std::vector<size_t> lens = {60, 130, 258, 300, 520, 1030, 2050, 4100};
  return c.pick(lens) + c.draw(8);
}

inline std::string genStr(Case& c, const Gen& g) {
  if (c.chance(1, 20000)) return std::string(65530 + c.draw(12), char('a' + c.draw(26)));
  if (c.chance(1, 60)) return std::string(200 + c.draw(3000), char('a' + c.draw(26))) + genText(c, 4);
  std::string s = genText(c, 16);
  if (g.badText && c.flip()) {
    static const std::vector<std::string> bad = {"\x80", "\xff", "\xc3", "\xe2\x82", "\xed\xa0\x80",
                                                 "\xed\xbf\xbf", "\xf4\x90\x80\x80", "\xc0\x80",
                                                 "\xf0\x9f", "\xfe", "\xe2(", "\xf0\x80\x80\x80"};
    s.insert(c.draw(s.size() + 1), c.pick(bad));
  }
  return s;
}
inline double genNum(Case& c, const Gen& g) {
  if (g.badNumbers && c.flip()) {
    static const double k[] = {double(INFINITY), -double(INFINITY), double(NAN)};
    return k[c.draw(3)];
  }
  return genDouble(c);
}
inline std::string genKey(Case& c, const Gen& g) {
  return c.chance(1, 20) ? "" : genStr(c, g);
}

////////////////////////////////////////////////////////////////////////////////
// V<T>: generator, JSON meaning and schema of a type.
////////////////////////////////////////////////////////////////////////////////
template <typename T>
struct V;

#define V_SCALAR(T, K, GEN, TOJ)                                  \
  template <>                                                     \
  struct V<dap::T> {                                              \
    static dap::T gen(Case& c, const Gen& g) { return dap::T(GEN); } \
    static J toJ(const dap::T& v) { return TOJ; }                 \
    static SchemaPtr schema() { return mkSchema(Schema::K); }     \
  };
V_SCALAR(boolean, Bool, c.flip(), J::boolean(v))
V_SCALAR(integer, Int, genInt(c), J::integer(v))
V_SCALAR(number, Num, genNum(c, g), J::number(v))
V_SCALAR(string, Str, genStr(c, g), J::str(v))
V_SCALAR(null, Null, , J::null())

template <typename T>
struct V<dap::array<T>> {
  static dap::array<T> gen(Case& c, const Gen& g) {
    dap::array<T> a;
    Gen n = g;
    n.depth--;
    size_t len = g.depth <= 0 ? 0 : c.size(c.chance(1, 30) ? 40 : g.maxLen);
    size_t more = len ? longLen(c, n) : 0;
    for (size_t i = 0; i < len; i++) a.push_back(V<T>::gen(c, n));
    while (a.size() < more) a.push_back(T(a[a.size() - len]));
    return a;
  }
  static J toJ(const dap::array<T>& v) {
    J j = J::arr();
    for (size_t i = 0; i < v.size(); i++) j.push(V<T>::toJ(v[i]));
    return j;
  }
  static SchemaPtr schema() {
    auto s = mkSchema(Schema::Arr);
    s->elem = V<T>::schema();
    return s;
  }
};

template <>
struct V<dap::any> {
  static dap::any gen(Case& c, const Gen& g);
  static J toJ(const dap::any& v);
  static SchemaPtr schema() { return mkSchema(Schema::Any); }
};

template <>
struct V<dap::object> {
  static dap::object gen(Case& c, const Gen& g) {
    dap::object o;
    Gen n = g;
    n.depth--;
    size_t len = g.depth <= 0 ? 0 : c.size(c.chance(1, 30) ? 40 : g.maxLen);
    size_t more = len ? longLen(c, n) : 0;
    dap::any first;
    for (size_t i = 0; i < len; i++) {
      auto v = V<dap::any>::gen(c, n);
      if (i == 0) first = v;
      o[genKey(c, g)] = v;
    }
    for (size_t i = 0; o.size() < more; i++) {
      if (i % 3 == 2) o[pbt::fmt("k%zu", i)] = first;
      else o[pbt::fmt("k%zu", i)] = dap::integer(int64_t(i));
    }
    return o;
  }
  static J toJ(const dap::object& v) {
    J j = J::obj();
    for (auto& kv : v) j.add(kv.first, V<dap::any>::toJ(kv.second));
    return j;
  }
  static SchemaPtr schema() { return mkSchema(Schema::Obj); }
};

template <typename T0, typename... Ts>
struct V<dap::variant<T0, Ts...>> {
  using Var = dap::variant<T0, Ts...>;
  static Var gen(Case& c, const Gen& g) {
    Var v;
    size_t k = c.draw(1 + sizeof...(Ts));
    set<T0, Ts...>(v, k, c, g);
    return v;
  }
  template <typename A, typename... Rest>
  static void set(Var& v, size_t k, Case& c, const Gen& g) {
    if (k == 0) {
      v = V<A>::gen(c, g);
      return;
    }
    if constexpr (sizeof...(Rest) > 0) set<Rest...>(v, k - 1, c, g);
  }
  static J toJ(const Var& v) { return get<T0, Ts...>(v); }
  template <typename A, typename... Rest>
  static J get(const Var& v) {
    if (v.template is<A>()) {
      if constexpr (std::is_same<A, dap::null>::value) {
        return J::null();
      } else {
        return V<A>::toJ(v.template get<A>());
      }
    }
    if constexpr (sizeof...(Rest) > 0) return get<Rest...>(v);
    return J::str("<variant holds another type>");
  }
  static SchemaPtr schema() {
    auto s = mkSchema(Schema::Any);
    s->variant = true;
    return s;
  }
};

template <typename T>
struct IsOptional {
  static constexpr bool value = false;
};
template <typename T>
struct IsOptional<dap::optional<T>> {
  static constexpr bool value = true;
};

struct FieldGen {
  Case& c;
  Gen g;
  template <typename T>
  void operator()(const char*, T& v) {
    v = V<T>::gen(c, g);
  }
  template <typename T>
  void operator()(const char*, dap::optional<T>& v) {
    if (c.flip()) v = V<T>::gen(c, g);
  }
};
struct FieldToJ {
  J j = J::obj();
  template <typename T>
  void operator()(const char* n, T& v) {
    j.add(n, V<T>::toJ(v));
  }
  template <typename T>
  void operator()(const char* n, dap::optional<T>& v) {
    if (v.has_value()) j.add(n, V<T>::toJ(v.value()));
  }
};
struct FieldSchema {
  SchemaPtr s = mkSchema(Schema::Struct);
  template <typename T>
  void operator()(const char* n, T&) {
    s->fields.push_back({n, false, V<T>::schema()});
  }
  template <typename T>
  void operator()(const char* n, dap::optional<T>&) {
    s->fields.push_back({n, true, V<T>::schema()});
  }
};

#define V_STRUCT(T, ...)                                 \
  template <>                                            \
  struct V<dap::T> {                                     \
    template <typename F>                                \
    static void fields(dap::T& s, F& f) { __VA_ARGS__; } \
    static dap::T gen(Case& c, const Gen& g) {           \
      dap::T s;                                          \
      FieldGen f{c, g};                                  \
      f.g.depth--;                                       \
      fields(s, f);                                      \
      return s;                                          \
    }                                                    \
    static J toJ(const dap::T& s) {                      \
      FieldToJ f;                                        \
      fields(const_cast<dap::T&>(s), f);                 \
      return f.j;                                        \
    }                                                    \
    static SchemaPtr schema() {                          \
      dap::T s;                                          \
      FieldSchema f;                                     \
      fields(s, f);                                      \
      return f.s;                                        \
    }                                                    \
  };

V_STRUCT(VFlat, f("b", s.b), f("int", s.i), f("num", s.n), f("s\xc3\xa9", s.s))
V_STRUCT(VOpt, f("b", s.b), f("i", s.i), f("n", s.n), f("s", s.s), f("a", s.a), f("o", s.o),
         f("l", s.l), f("f", s.f))
V_STRUCT(VBase, f("base", s.base), f("note", s.note))
V_STRUCT(VDerived, f("base", s.base), f("note", s.note), f("extra", s.extra), f("flats", s.flats))
V_STRUCT(VDeep, f("base", s.base), f("note", s.note), f("extra", s.extra), f("flats", s.flats),
         f("level", s.level), f("deep", s.deep))
V_STRUCT(VNested, f("flat", s.flat), f("opt", s.opt), f("derived", s.derived), f("opts", s.opts),
         f("grid", s.grid), f("more", s.more), f("maybe", s.maybe), f("deep", s.deep), f("nothing", s.nothing), f("obj", s.obj),
         f("what", s.what), f("var", s.var))

inline dap::any V<dap::any>::gen(Case& c, const Gen& g) {
  Gen n = g;
  n.depth--;
  switch (c.draw(g.depth <= 0 ? 5 : 10)) {
    case 0: return V<dap::integer>::gen(c, g);
    case 1: return V<dap::string>::gen(c, g);
    case 2: return V<dap::boolean>::gen(c, g);
    case 3: return V<dap::number>::gen(c, g);
    case 4: return dap::null();
    case 5: return V<dap::object>::gen(c, n);
    case 6: return V<dap::array<dap::any>>::gen(c, n);
    case 7: return V<dap::array<dap::integer>>::gen(c, n);
    case 8: return V<dap::array<dap::string>>::gen(c, n);
    default: return V<dap::VFlat>::gen(c, n);
  }
}
inline J V<dap::any>::toJ(const dap::any& v) {
#define TRY(T) \
  if (v.is<T>()) return V<T>::toJ(v.get<T>());
  TRY(dap::integer)
  TRY(dap::string)
  TRY(dap::boolean)
  TRY(dap::number)
  if (v.is<dap::null>()) return J::null();
  TRY(dap::object)
  TRY(dap::array<dap::any>)
  TRY(dap::array<dap::integer>)
  TRY(dap::array<dap::string>)
  TRY(dap::VFlat)
#undef TRY
  return J::str("<any holds no known type>");
}

////////////////////////////////////////////////////////////////////////////////
// Types at run time.
////////////////////////////////////////////////////////////////////////////////
struct Type {
  const char* name;
  const dap::TypeInfo* info;
  SchemaPtr schema;
  // The object is owned by the shared_ptr.
  std::function<std::shared_ptr<void>(Case&, const Gen&)> gen;
  std::function<std::shared_ptr<void>()> fresh;
  std::function<J(const void*)> toJ;
};

template <typename T>
Type mkType(const char* name) {
  Type t;
  t.name = name;
  t.info = dap::TypeOf<T>::type();
  t.schema = V<T>::schema();
  t.gen = [](Case& c, const Gen& g) -> std::shared_ptr<void> {
    return std::make_shared<T>(V<T>::gen(c, g));
  };
  t.fresh = []() -> std::shared_ptr<void> { return std::make_shared<T>(); };
  t.toJ = [](const void* p) { return V<T>::toJ(*static_cast<const T*>(p)); };
  return t;
}

inline const std::vector<Type>& types() {
  static const std::vector<Type> t = {
      mkType<dap::integer>("integer"),
      mkType<dap::boolean>("boolean"),
      mkType<dap::number>("number"),
      mkType<dap::string>("string"),
      mkType<dap::any>("any"),
      mkType<dap::null>("null"),
      mkType<dap::object>("object"),
      mkType<dap::array<dap::integer>>("array<integer>"),
      mkType<dap::array<dap::any>>("array<any>"),
      mkType<dap::array<dap::array<dap::number>>>("array<array<number>>"),
      mkType<dap::VFlat>("VFlat"),
      mkType<dap::VOpt>("VOpt"),
      mkType<dap::VDerived>("VDerived"),
      mkType<dap::VDeep>("VDeep"),
      mkType<dap::array<dap::VFlat>>("array<VFlat>"),
      mkType<dap::variant<dap::integer, dap::string, dap::boolean, dap::number, dap::null>>("variant"),
      mkType<dap::VNested>("VNested"),
  };
  return t;
}

#ifndef V_NO_BACKENDS
////////////////////////////////////////////////////////////////////////////////
// Back ends
////////////////////////////////////////////////////////////////////////////////
struct Backend {
  const char* name;
  std::function<std::unique_ptr<dap::Serializer>()> serializer;
  std::function<std::string(dap::Serializer*)> dump;
  std::function<std::unique_ptr<dap::Deserializer>(const std::string&)> deserializer;

  // encode() returns false if the value cannot be serialized.
  bool encode(const Type& t, const void* obj, std::string* doc) const {
    auto s = serializer();
    if (!t.info->serialize(s.get(), obj)) return false;
    *doc = dump(s.get());
    return true;
  }
  bool decode(const Type& t, const std::string& doc, void* obj) const {
    auto d = deserializer(doc);
    return t.info->deserialize(d.get(), obj);
  }
};

template <typename S, typename D>
Backend mkBackend(const char* name) {
  Backend b;
  b.name = name;
  b.serializer = []() { return std::unique_ptr<dap::Serializer>(new S()); };
  b.dump = [](dap::Serializer* s) { return static_cast<S*>(s)->dump(); };
  b.deserializer = [](const std::string& t) {
    return std::unique_ptr<dap::Deserializer>(new D(t));
  };
  return b;
}

inline const std::vector<Backend>& backends() {
  using namespace dap::json;
  static const std::vector<Backend> b = {
      mkBackend<NlohmannSerializer, NlohmannDeserializer>("nlohmann"),
      mkBackend<RapidSerializer, RapidDeserializer>("RapidJSON"),
      mkBackend<JsonCppSerializer, JsonCppDeserializer>("JsonCpp"),
  };
  return b;
}
#endif

// Equal as JSON values, where 1 and 1.0 are the same number.
inline bool sameNumbers(const J& x, const J& y) {
  bool nx = x.kind == J::Int || x.kind == J::Num;
  bool ny = y.kind == J::Int || y.kind == J::Num;
  if (nx && ny) {
    if (x.kind == J::Int && y.kind == J::Int) return same(x, y);
    double a = x.kind == J::Int && !x.big ? double(x.i) : x.d;
    double b = y.kind == J::Int && !y.big ? double(y.i) : y.d;
    if (x.kind == J::Int && !x.big && int64_t(a) != x.i && a < 9.2e18 && a > -9.2e18) return false;
    if (y.kind == J::Int && !y.big && int64_t(b) != y.i && b < 9.2e18 && b > -9.2e18) return false;
    return a == b;
  }
  if (x.kind != y.kind) return false;
  if (x.kind == J::Arr) {
    if (x.a.size() != y.a.size()) return false;
    for (size_t n = 0; n < x.a.size(); n++) {
      if (!sameNumbers(x.a[n], y.a[n])) return false;
    }
    return true;
  }
  if (x.kind == J::Obj) {
    if (x.o.size() != y.o.size()) return false;
    for (auto& kv : x.o) {
      auto j = y.get(kv.first);
      if (!j || !sameNumbers(kv.second, *j)) return false;
    }
    return true;
  }
  return same(x, y);
}

// A document of any shape, without duplicate keys.
inline J genDoc(Case& c, const Gen& g) { return V<dap::any>::toJ(V<dap::any>::gen(c, g)); }

// A value of another kind than j, or any value.
inline J otherValue(Case& c, const J& j, const Gen& g) {
  switch (c.draw(12)) {
    case 0: return J::null();
    case 1: return J::boolean(c.flip());
    case 2: return J::integer(genInt(c));
    case 3: return J::number(genDouble(c));
    case 4: return J::str(genText(c, 6));
    case 5: return J::arr();
    case 6: return J::obj();
    case 7: {  // wrapped
      J a = J::arr();
      a.push(j);
      return a;
    }
    case 8: {
      J o = J::obj();
      o.add("v", j);
      return o;
    }
    case 9: {  // its text
      return J::str(toJson(j));
    }
    case 10:  // the same number in the other kind
      if (j.kind == J::Int && !j.big) return J::number(double(j.i));
      if (j.kind == J::Num && fabs(j.d) < 9e15) return J::integer(int64_t(j.d));
      if (j.kind == J::Bool) return J::integer(j.b);
      if (j.kind == J::Str && j.s.empty()) return J::null();
      if (j.kind == J::Arr && !j.a.empty()) return j.a[0];
      if (j.kind == J::Arr) return J::obj();
      if (j.kind == J::Obj) return J::arr();
      return J::integer(0);
    default: return genDoc(c, g);
  }
}

// Changes a document at one place. Returns false if nothing was changed. The
// content of variants is left alone.
inline bool mutate(Case& c, J& j, const Schema* s, const Gen& g) {
  if (s && s->variant) return false;
  bool leaf = (j.kind != J::Arr && j.kind != J::Obj) || (j.a.empty() && j.o.empty());
  if (leaf || c.chance(1, 6)) {
    if (leaf && j.kind == J::Obj && c.flip()) {
      j.add(genKey(c, g), genDoc(c, g));
      return true;
    }
    if (leaf && j.kind == J::Arr && c.flip()) {
      j.push(genDoc(c, g));
      return true;
    }
    j = otherValue(c, j, g);
    return true;
  }
  if (j.kind == J::Arr) {
    size_t n = c.draw(j.a.size());
    switch (c.draw(8)) {
      case 0: {
        J x = otherValue(c, j.a[n], g);
        j.a.insert(j.a.begin() + long(n), x);
        return true;
      }
      case 1:
        j.a.erase(j.a.begin() + long(n));
        return true;
      default:
        return mutate(c, j.a[n], s && s->kind == Schema::Arr ? s->elem.get() : nullptr, g);
    }
  }
  size_t n = c.draw(j.o.size());
  const Schema* f = nullptr;
  if (s && s->kind == Schema::Struct) {
    for (auto& x : s->fields) {
      if (x.name == j.o[n].first) f = x.type.get();
    }
  }
  switch (c.draw(10)) {
    case 0:
    case 1:  // dropped
      j.o.erase(j.o.begin() + long(n));
      return true;
    case 2: {  // renamed
      std::string k = j.o[n].first;
      switch (c.draw(4)) {
        case 0: k += "x"; break;
        case 1: k = genKey(c, g); break;
        case 2: if (!k.empty()) k[0] = char(k[0] ^ 0x20); break;
        default: if (!k.empty()) k.pop_back();
      }
      if (!validUtf8(k) || j.get(k)) return false;
      j.o[n].first = k;
      return true;
    }
    case 3: {  // unknown field
      std::string k = genKey(c, g);
      if (j.get(k)) return false;
      if (s && s->kind == Schema::Struct) {
        for (auto& x : s->fields) {
          if (x.name == k) return false;
        }
      }
      j.o.insert(j.o.begin() + long(n), {k, genDoc(c, g)});
      return true;
    }
    case 4: {  // reordered
      size_t m = c.draw(j.o.size());
      std::swap(j.o[n], j.o[m]);
      return true;
    }
    case 5:
    case 6:
      if (f && f->variant) return false;
      j.o[n].second = otherValue(c, j.o[n].second, g);
      return true;
    default:
      return mutate(c, j.o[n].second, f, g);
  }
}

inline size_t nodes(const J& j) {
  size_t n = 1;
  for (auto& e : j.a) n += nodes(e);
  for (auto& e : j.o) n += nodes(e.second);
  return n;
}

}  // namespace h
