// The types of the C27 harnesses.
#pragma once

#include "dap/any.h"
#include "dap/protocol.h"
#include "dap/typeof.h"
#include "dap/types.h"

#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>

namespace c27 {
struct Inner {
  dap::string s;
  dap::optional<dap::integer> i;
};
struct Outer {
  dap::array<Inner> inners;
  dap::variant<dap::integer, dap::string> v;
  dap::object o;
};
struct Derived : public Inner {
  dap::number n;
};
struct alignas(32) Wide {
  dap::integer i;
};
struct alignas(64) Wider {
  dap::boolean b;
};
struct Empty {};
}  // namespace c27

namespace dap {
DAP_STRUCT_TYPEINFO(c27::Inner, "c27-inner", DAP_FIELD(s, "s"), DAP_FIELD(i, "i"));
DAP_STRUCT_TYPEINFO(c27::Outer, "c27-outer", DAP_FIELD(inners, "inners"), DAP_FIELD(v, "v"),
                    DAP_FIELD(o, "o"));
DAP_STRUCT_TYPEINFO_EXT(c27::Derived, c27::Inner, "c27-derived", DAP_FIELD(n, "n"));
DAP_STRUCT_TYPEINFO(c27::Wide, "c27-wide", DAP_FIELD(i, "i"));
DAP_STRUCT_TYPEINFO(c27::Wider, "c27-wider", DAP_FIELD(b, "b"));
DAP_STRUCT_TYPEINFO(c27::Empty, "");
}  // namespace dap

namespace c27 {

// mark() gives a value that is not the default one; is() recognizes it.
inline void mark(dap::boolean& v) { v = true; }
inline bool is(const dap::boolean& v) { return v; }
inline void mark(dap::integer& v) { v = 0x123456789abcll; }
inline bool is(const dap::integer& v) { return int64_t(v) == 0x123456789abcll; }
inline void mark(dap::number& v) { v = 1.5; }
inline bool is(const dap::number& v) { return double(v) == 1.5; }
inline void mark(dap::string& v) { v = "a string that does not fit into the small buffer"; }
inline bool is(const dap::string& v) {
  return v == "a string that does not fit into the small buffer";
}
inline void mark(dap::null&) {}
inline bool is(const dap::null&) { return true; }
inline void mark(dap::any& v) { v = dap::string("any"); }
inline bool is(const dap::any& v) {
  return v.is<dap::string>() && v.get<dap::string>() == "any";
}
inline void mark(dap::object& v) {
  mark(v["a"]);
  v["b"] = dap::integer(3);
}
inline bool is(const dap::object& v) {
  return v.size() == 2 && v.count("a") && is(v.at("a")) && v.count("b") &&
         v.at("b").is<dap::integer>();
}
inline void mark(Inner& v) {
  mark(v.s);
  v.i = 5;
}
inline bool is(const Inner& v) { return is(v.s) && v.i.has_value() && *v.i == 5; }
inline void mark(Derived& v) {
  mark(static_cast<Inner&>(v));
  mark(v.n);
}
inline bool is(const Derived& v) { return is(static_cast<const Inner&>(v)) && is(v.n); }
inline void mark(Wide& v) { mark(v.i); }
inline bool is(const Wide& v) { return is(v.i); }
inline void mark(Wider& v) { mark(v.b); }
inline bool is(const Wider& v) { return is(v.b); }
inline void mark(Empty&) {}
inline bool is(const Empty&) { return true; }
inline void mark(dap::Source& v) {
  v.name = "source";
  v.sourceReference = 9;
}
inline bool is(const dap::Source& v) {
  return v.name.has_value() && *v.name == "source" && v.sourceReference.has_value();
}
inline void mark(dap::StackFrame& v) {
  mark(v.name);
  v.source = dap::Source();
  mark(*v.source);
}
inline bool is(const dap::StackFrame& v) {
  return is(v.name) && v.source.has_value() && is(*v.source);
}
inline void mark(dap::StackFrameFormat& v) {
  v.hex = true;
  v.line = true;
}
inline bool is(const dap::StackFrameFormat& v) { return v.hex.has_value() && v.line.has_value(); }
inline void mark(dap::InitializeRequest& v) { mark(v.adapterID); }
inline bool is(const dap::InitializeRequest& v) { return is(v.adapterID); }
inline void mark(dap::InitializeResponse& v) { v.supportsCancelRequest = true; }
inline bool is(const dap::InitializeResponse& v) { return v.supportsCancelRequest.has_value(); }
inline void mark(dap::OutputEvent& v) { mark(v.output); }
inline bool is(const dap::OutputEvent& v) { return is(v.output); }

template <typename T>
void mark(dap::array<T>& v);
template <typename T>
bool is(const dap::array<T>& v);
template <typename T>
void mark(dap::optional<T>& v);
template <typename T>
bool is(const dap::optional<T>& v);
template <typename T, typename... R>
void mark(dap::variant<T, R...>& v);
template <typename T, typename... R>
bool is(const dap::variant<T, R...>& v);

inline void mark(Outer& v) {
  v.inners.resize(2);
  mark(v.inners[1]);
  v.v = dap::string("v");
  mark(v.o);
}
inline bool is(const Outer& v) {
  return v.inners.size() == 2 && is(v.inners[1]) && v.v.is<dap::string>() && is(v.o);
}
template <typename T>
void mark(dap::array<T>& v) {
  T t;
  mark(t);
  v.push_back(t);
  v.push_back(t);
}
template <typename T>
bool is(const dap::array<T>& v) {
  if (v.size() != 2) return false;
  T a = v[0], b = v[1];
  return is(a) && is(b);
}
template <typename T>
void mark(dap::optional<T>& v) {
  T t;
  mark(t);
  v = t;
}
template <typename T>
bool is(const dap::optional<T>& v) {
  return v.has_value() && is(*v);
}
template <typename T, typename... R>
void mark(dap::variant<T, R...>& v) {
  T t;
  mark(t);
  v = t;
}
template <typename T, typename... R>
bool is(const dap::variant<T, R...>& v) {
  return v.template is<T>() && is(v.template get<T>());
}

// Counts the copies and destructions that a TypeInfo makes.
template <typename T>
const char* exercise() {
  auto ti = dap::TypeOf<T>::type();
  if (ti->size() != sizeof(T)) return "size() is wrong";
  if (ti->alignment() != alignof(T)) return "alignment() is wrong";
  size_t n = (sizeof(T) + 63) / 64 * 64;
  auto a = static_cast<T*>(aligned_alloc(64, n));
  auto b = static_cast<T*>(aligned_alloc(64, n));
  memset(static_cast<void*>(a), 0xAB, n);
  memset(static_cast<void*>(b), 0xAB, n);
  ti->construct(a);
  mark(*a);
  ti->copyConstruct(b, a);
  const char* r = nullptr;
  if (!is(*a)) r = "construct() makes no value of the type";
  if (!is(*b)) r = "copyConstruct() makes no copy";
  ti->destruct(a);
  if (!is(*b)) r = "the copy depends on the original";
  ti->destruct(b);
  free(a);
  free(b);
  return r;
}

struct Entry {
  bool named(const std::string& s) const { return name[0] == '~' || s == name; }
  const char* name;
  const dap::TypeInfo* (*type)();
  const char* (*exercise)();
  void (*fill)(dap::any&);
  bool (*holds)(const dap::any&);
};

template <typename T>
void fill(dap::any& a) {
  T t;
  mark(t);
  a = t;
}
template <typename T>
bool holds(const dap::any& a) {
  return a.is<T>() && is(a.get<T>());
}
template <>
inline bool holds<dap::null>(const dap::any& a) {
  return a.is<dap::null>();
}
template <typename T>
Entry entry(const char* name) {
  return {name, &dap::TypeOf<T>::type, &exercise<T>, &fill<T>, &holds<T>};
}

using namespace dap;
using V1 = variant<integer, string>;
using V2 = variant<string, array<integer>, object>;
using V3 = variant<Inner, boolean>;

// Never destructed. Names with ~ are not those of the descriptor.
inline const std::vector<Entry>& entries() {
  static const auto& v = *new std::vector<Entry>{
      entry<boolean>("boolean"),
      entry<string>("string"),
      entry<integer>("integer"),
      entry<number>("number"),
      entry<object>("object"),
      entry<null>("null"),
      entry<array<integer>>("array<integer>"),
      entry<array<string>>("array<string>"),
      entry<array<boolean>>("array<boolean>"),
      entry<array<any>>("array<any>"),
      entry<array<object>>("array<object>"),
      entry<array<array<integer>>>("array<array<integer>>"),
      entry<array<array<array<string>>>>("array<array<array<string>>>"),
      entry<array<number>>("array<number>"),
      entry<optional<integer>>("optional<integer>"),
      entry<optional<string>>("optional<string>"),
      entry<optional<array<number>>>("optional<array<number>>"),
      entry<array<optional<string>>>("array<optional<string>>"),
      entry<V1>("variant"),
      entry<V2>("variant"),
      entry<V3>("variant"),
      entry<array<V1>>("array<variant>"),
      entry<optional<V2>>("optional<variant>"),
      entry<Inner>("c27-inner"),
      entry<Outer>("c27-outer"),
      entry<Derived>("c27-derived"),
      entry<Wide>("c27-wide"),
      entry<Wider>("c27-wider"),
      entry<Empty>(""),
      entry<array<Empty>>("array<>"),
      entry<optional<Wide>>("optional<c27-wide>"),
      entry<array<Inner>>("array<c27-inner>"),
      entry<optional<Outer>>("optional<c27-outer>"),
      entry<Source>("~Source"),
      entry<StackFrame>("~StackFrame"),
      entry<StackFrameFormat>("~StackFrameFormat"),
      entry<array<Source>>("~array<Source>"),
      entry<optional<Source>>("~optional<Source>"),
      entry<array<StackFrame>>("~array<StackFrame>"),
      entry<InitializeRequest>("~initialize"),
      entry<InitializeResponse>("~InitializeResponse"),
      entry<OutputEvent>("~output"),
  };
  return v;
}

}  // namespace c27
