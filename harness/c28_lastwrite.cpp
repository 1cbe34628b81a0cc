// C28: a serializer stores the last value written to it.
#include "values.h"

#include <cmath>

namespace {
using namespace h;

struct Write;
using Writes = std::vector<std::shared_ptr<Write>>;

// One call on a serializer.
struct Write {
  enum Kind { Typed, Array, Object, Remove } kind = Typed;
  const Type* type = nullptr;
  std::shared_ptr<void> value;
  std::vector<Writes> elems;                              // Array
  std::vector<std::pair<std::string, Writes>> fields;     // Object
};

size_t total = 0;

Writes genWrites(Case& c, int depth, bool removable);

std::shared_ptr<Write> genWrite(Case& c, int depth) {
  auto w = std::make_shared<Write>();
  total++;
  size_t k = depth <= 0 ? 0 : c.draw(5);
  if (k < 2) {
    w->type = &c.pick(types());
    Gen g;
    g.depth = int(c.draw(4));
    g.maxLen = 3;
    g.longs = 3000;
    g.badNumbers = c.chance(1, 10);
    w->value = w->type->gen(c, g);
    return w;
  }
  if (k == 2) {
    w->kind = Write::Array;
    size_t n = c.draw(4);
    for (size_t i = 0; i < n; i++) w->elems.push_back(genWrites(c, depth - 1, false));
    return w;
  }
  w->kind = Write::Object;
  static const std::vector<std::string> names = {"a", "b", "", "k\xc3\xa9", std::string("a\0b", 3)};
  size_t n = c.draw(7);
  for (size_t i = 0; i < n; i++) {
    auto name = c.pick(names);
    w->fields.push_back({name, genWrites(c, depth - 1, true)});
  }
  return w;
}

Writes genWrites(Case& c, int depth, bool removable) {
  Writes ws;
  size_t n = 1 + c.draw(3);
  for (size_t i = 0; i < n; i++) ws.push_back(genWrite(c, depth));
  if (removable && c.chance(1, 4)) {
    if (c.flip()) ws.clear();
    auto w = std::make_shared<Write>();
    w->kind = Write::Remove;
    ws.push_back(w);
  }
  return ws;
}

// The meaning: nothing for a removed field.
bool meaning(const Writes& ws, J* out) {
  auto& w = *ws.back();
  switch (w.kind) {
    case Write::Typed:
      *out = w.type->toJ(w.value.get());
      return true;
    case Write::Array: {
      *out = J::arr();
      for (auto& e : w.elems) {
        J x;
        meaning(e, &x);
        out->push(x);
      }
      return true;
    }
    case Write::Object: {
      *out = J::obj();
      for (auto& f : w.fields) {
        for (size_t i = 0; i < out->o.size(); i++) {
          if (out->o[i].first == f.first) {
            out->o.erase(out->o.begin() + long(i));
            break;
          }
        }
        J x;
        if (meaning(f.second, &x)) out->add(f.first, x);
      }
      return true;
    }
    case Write::Remove:
      return false;
  }
  return false;
}

bool perform(dap::Serializer* s, const Writes& ws) {
  for (auto& p : ws) {
    auto& w = *p;
    bool ok = true;
    switch (w.kind) {
      case Write::Typed:
        ok = w.type->info->serialize(s, w.value.get());
        break;
      case Write::Array: {
        size_t i = 0;
        ok = s->array(w.elems.size(), [&](dap::Serializer* e) { return perform(e, w.elems[i++]); });
        break;
      }
      case Write::Object:
        ok = s->object([&](dap::FieldSerializer* fs) {
          for (auto& f : w.fields) {
            if (!fs->field(f.first, [&](dap::Serializer* e) { return perform(e, f.second); })) {
              return false;
            }
          }
          return true;
        });
        break;
      case Write::Remove:
        s->serialize(dap::optional<dap::integer>());
        break;
    }
    if (!ok) return false;
  }
  return true;
}

std::string show(const Writes& ws) {
  std::string s;
  for (auto& p : ws) {
    auto& w = *p;
    if (!s.empty()) s += " then ";
    switch (w.kind) {
      case Write::Typed:
        s += pbt::esc(toJson(w.type->toJ(w.value.get())), 60);
        break;
      case Write::Array:
        s += "[";
        for (auto& e : w.elems) s += "(" + show(e) + ")";
        s += "]";
        break;
      case Write::Object:
        s += "{";
        for (auto& f : w.fields) s += pbt::esc(f.first) + ":(" + show(f.second) + ")";
        s += "}";
        break;
      case Write::Remove:
        s += "remove";
        break;
    }
  }
  return s;
}

// A number that JSON cannot represent is null, or a number that is too large.
J relaxed(const J& j) {
  J r = j;
  if (j.kind == J::Num && !std::isfinite(j.d)) return J::null();
  for (auto& x : r.a) x = relaxed(x);
  for (auto& x : r.o) x.second = relaxed(x.second);
  return r;
}

void property(Case& c) {
  total = 0;
  auto ws = genWrites(c, int(c.draw(4)), false);
  J want;
  meaning(ws, &want);
  want = relaxed(want);
  if (c.wantDescription()) c.describe(show(ws).substr(0, 500));
  for (auto& b : backends()) {
    auto s = b.serializer();
    if (!perform(s.get(), ws)) {
      c.fail("%s: a value cannot be serialized: %s", b.name, show(ws).c_str());
    }
    auto doc = b.dump(s.get());
    J got;
    std::string err;
    if (!parseJson(doc, &got, &err)) {
      c.fail("%s: invalid JSON (%s): %s", b.name, err.c_str(), pbt::esc(doc, 600).c_str());
    }
    if (!sameNumbers(relaxed(got), want)) {
      c.fail("%s: after the writes %s the document is %s instead of %s", b.name,
             show(ws).c_str(), pbt::esc(doc, 600).c_str(), pbt::esc(toJson(want), 600).c_str());
    }
  }
  c.label(total > 5 ? "more than 5 writes" : "up to 5 writes");
  if (total > 1) c.nontrivial(show(ws));
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Options o;
  o.name = "c28_lastwrite";
  o.rule =
      "A case is a generated tree of writes: 1-3 writes one after another to each "
      "serializer (values of 15 types, some with non-finite numbers, array() and object() with nested writes), "
      "repeated and removed fields; the document of each back end is parsed "
      "independently and compared with the last writes. Non-trivial: at least two "
      "writes; distinct: by the writes.";
  o.property = property;
  o.quickCases = 150000;
  o.thoroughCases = 20000000;
  o.quickCap = 40;
  o.workerInit = [](int) { h::types(); h::backends(); };
  return pbt::run(argc, argv, o);
}
