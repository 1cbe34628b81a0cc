// The definitions of one part of the table.
#define V_DECLARE_ONLY
#include "c08.h"
#define C08_CHUNK C08_PART

namespace h {

namespace {
struct TableGen {
  Case& c;
  Gen g;
  template <typename T>
  void operator()(const char*, const char*, const char*, T& v) {
    v = V<T>::gen(c, g);
  }
  template <typename T>
  void operator()(const char*, const char*, const char*, dap::optional<T>& v) {
    if (g.depth >= 0 && c.flip()) v = V<T>::gen(c, g);
  }
};
struct TableToJ {
  J j = J::obj();
  template <typename T>
  void operator()(const char*, const char* wire, const char*, T& v) {
    j.add(wire, V<T>::toJ(v));
  }
  template <typename T>
  void operator()(const char*, const char* wire, const char*, dap::optional<T>& v) {
    if (v.has_value()) j.add(wire, V<T>::toJ(v.value()));
  }
};
struct TableFields {
  std::vector<Entry::Field> out;
  template <typename T>
  void operator()(const char* member, const char* wire, const char* type, T&) {
    out.push_back({member, wire, type});
  }
};
}  // namespace

#define F(MEMBER, WIRE, TYPE) f(#MEMBER, WIRE, TYPE, s.MEMBER);
#define M_STRUCT(S, NAME, KIND, FNS, FIELDS)             \
  namespace {                                            \
  template <typename Fn>                                 \
  void fields_##S(dap::S& s, Fn& f) {                    \
    (void)s; (void)f;                                    \
    FIELDS                                               \
  }                                                      \
  }                                                      \
  dap::S V<dap::S>::gen(Case& c, const Gen& g) {         \
    dap::S s;                                            \
    TableGen f{c, g};                                    \
    f.g.depth--;                                         \
    fields_##S(s, f);                                    \
    return s;                                            \
  }                                                      \
  J V<dap::S>::toJ(const dap::S& s) {                    \
    TableToJ f;                                          \
    fields_##S(const_cast<dap::S&>(s), f);               \
    return f.j;                                          \
  }                                                      \
  static void add_##S() {                                \
    Entry e = mkEntry<dap::S>(#S, NAME, Entry::KIND);    \
    TableFields f;                                       \
    dap::S s;                                            \
    fields_##S(s, f);                                    \
    e.fields = f.out;                                    \
    FNS                                                  \
    table()[#S] = e;                                     \
  }
#define M_TYPE(S, NAME, FIELDS) M_STRUCT(S, NAME, Type_, , FIELDS)
#define M_RESPONSE(S, NAME, FIELDS) M_STRUCT(S, NAME, Response_, , FIELDS)
#define M_EVENT(S, NAME, FIELDS) M_STRUCT(S, NAME, Event_, eventFns<dap::S>(e);, FIELDS)
#define M_REQUEST(S, RESPONSE, NAME, FIELDS)                                       \
  M_STRUCT(S, NAME, Request_, e.response = #RESPONSE;                              \
           requestFns<dap::S C08_COMMA dap::RESPONSE>(e);, FIELDS)
#define C08_COMMA ,
#include "c08_table.inc"
#undef M_TYPE
#undef M_RESPONSE
#undef M_EVENT
#undef M_REQUEST

#define C08_CAT2(A, B) A##B
#define C08_CAT(A, B) C08_CAT2(A, B)
#define M_TYPE(S, NAME, FIELDS) add_##S();
#define M_RESPONSE M_TYPE
#define M_EVENT M_TYPE
#define M_REQUEST(S, RESPONSE, NAME, FIELDS) add_##S();
void C08_CAT(addChunk, C08_PART)() {
#include "c08_table.inc"
}

}  // namespace h
