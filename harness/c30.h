// Values that cannot be encoded, as they hold a value of a type whose
// serialization fails, at any depth.
#pragma once

#include "json.h"

#include "dap/any.h"
#include "dap/optional.h"
#include "dap/protocol.h"
#include "dap/serialization.h"
#include "dap/typeof.h"
#include "dap/types.h"
#include "dap/variant.h"

namespace dap {

// A type with a serialization of its own, which fails for negative codes.
struct VPicky {
  int64_t code = 0;
};
template <>
struct TypeOf<VPicky> {
  static constexpr bool has_custom_serialization = true;
  static const TypeInfo* type() {
    struct TI : BasicTypeInfo<VPicky> {
      TI() : BasicTypeInfo<VPicky>("vpicky") {}
      bool deserialize(const Deserializer* d, void* p) const override {
        integer i;
        if (!d->deserialize(&i)) return false;
        static_cast<VPicky*>(p)->code = i;
        return true;
      }
      bool serialize(Serializer* s, const void* p) const override {
        auto code = static_cast<const VPicky*>(p)->code;
        return code >= 0 && s->serialize(integer(code));
      }
    };
    return TypeInfo::create<TI>();
  }
};

struct VHole {
  integer id = 0;
  any a = integer(0);
  optional<any> m;
  array<any> l;
  object o;
  variant<integer, VPicky, array<any>> v;
  optional<VPicky> p;
  string last;
};
DAP_STRUCT_TYPEINFO(VHole, "vhole", DAP_FIELD(id, "id"), DAP_FIELD(a, "a"), DAP_FIELD(m, "m"),
                    DAP_FIELD(l, "l"), DAP_FIELD(o, "o"), DAP_FIELD(v, "v"), DAP_FIELD(p, "p"),
                    DAP_FIELD(last, "last"));

struct VHoleDerived : public VHole {
  any own = integer(0);
  array<VHole> subs;
  optional<VHole> sub;
  boolean end = false;
};
DAP_STRUCT_TYPEINFO_EXT(VHoleDerived, VHole, "vholederived", DAP_FIELD(own, "own"),
                        DAP_FIELD(subs, "subs"), DAP_FIELD(sub, "sub"), DAP_FIELD(end, "end"));

}  // namespace dap

namespace h {

using pbt::Case;

// Generates values together with their meaning.
struct HoleGen {
  Case& c;
  uint64_t rate;   // one of 'rate' places is a hole; 0: none
  size_t maxLen = 3;
  int holes = 0;
  int longs = 2;   // of so many elements
  int places = 0;  // where there could be one

  // The number of elements; those of a long array or object are not nested.
  size_t len(int* depth) {
    if (c.chance(1, 25) && longs) {
      longs--;
      *depth = 0;
      return 5 + c.draw(c.chance(1, 4) ? 300 : 30);
    }
    return c.draw(maxLen + 1);
  }
  bool hole() {
    places++;
    if (rate && c.chance(1, rate)) {
      holes++;
      return true;
    }
    return false;
  }
  dap::VPicky picky(J* j) {
    dap::VPicky p;
    p.code = int64_t(c.draw(1000));
    *j = J::integer(p.code);
    if (hole()) p.code = -1 - p.code;
    return p;
  }
  dap::any value(int depth, J* j) {
    if (hole()) {
      dap::VPicky p;
      p.code = -1 - int64_t(c.draw(9));
      *j = J::integer(p.code);
      return p;
    }
    switch (c.draw(depth <= 0 ? 6 : 10)) {
      case 0: {
        auto i = genInt(c);
        *j = J::integer(i);
        return dap::integer(i);
      }
      case 1: {
        auto s = genText(c, 6);
        *j = J::str(s);
        return dap::string(s);
      }
      case 2: *j = J::boolean(true); return dap::boolean(true);
      case 3: *j = J::number(0.5); return dap::number(0.5);
      case 4:
        *j = J::null();
        if (c.flip()) return dap::any();
        return dap::null();
      case 5: return picky(j);
      case 6: return object(depth - 1, j);
      case 7: return list(depth - 1, j);
      case 8: {
        dap::array<dap::VPicky> a;
        *j = J::arr();
        size_t n = len(&depth);
        for (size_t i = 0; i < n; i++) {
          J e;
          a.push_back(picky(&e));
          j->push(e);
        }
        return a;
      }
      default: return fill<dap::VHole>(depth - 1, j);
    }
  }
  dap::array<dap::any> list(int depth, J* j) {
    dap::array<dap::any> a;
    *j = J::arr();
    size_t n = len(&depth);
    for (size_t i = 0; i < n; i++) {
      J e;
      a.push_back(value(depth, &e));
      j->push(e);
    }
    return a;
  }
  dap::object object(int depth, J* j) {
    dap::object o;
    *j = J::obj();
    size_t n = len(&depth);
    for (size_t i = 0; i < n; i++) {
      J e;
      auto k = pbt::fmt("k%zu", i);
      o[k] = value(depth, &e);
      j->add(k, e);
    }
    return o;
  }
  void fields(dap::VHole& h, int depth, J* j) {
    J e;
    h.id = genInt(c);
    j->add("id", J::integer(h.id));
    h.a = value(depth, &e);
    j->add("a", e);
    if (c.flip()) {
      h.m = value(depth, &e);
      j->add("m", e);
    }
    h.l = list(depth, &e);
    j->add("l", e);
    h.o = object(depth, &e);
    j->add("o", e);
    switch (c.draw(3)) {
      case 0: h.v = dap::integer(7); e = J::integer(7); break;
      case 1: h.v = picky(&e); break;
      default: h.v = list(depth, &e);
    }
    j->add("v", e);
    if (c.flip()) {
      h.p = picky(&e);
      j->add("p", e);
    }
    h.last = genText(c, 4);
    j->add("last", J::str(h.last));
  }
  void fields(dap::VHoleDerived& h, int depth, J* j) {
    fields(static_cast<dap::VHole&>(h), depth, j);
    J e;
    h.own = value(depth, &e);
    j->add("own", e);
    J a = J::arr();
    size_t n = depth > 0 ? c.draw(c.chance(1, 20) ? 14 : 3) : 0;
    for (size_t i = 0; i < n; i++) {
      h.subs.push_back(fill<dap::VHole>(depth - 1, &e));
      a.push(e);
    }
    j->add("subs", a);
    if (depth > 0 && c.flip()) {
      h.sub = fill<dap::VHole>(depth - 1, &e);
      j->add("sub", e);
    }
    h.end = c.flip();
    j->add("end", J::boolean(h.end));
  }
  template <typename T>
  T fill(int depth, J* j) {
    T t;
    *j = J::obj();
    fields(t, depth, j);
    return t;
  }
};

}  // namespace h
