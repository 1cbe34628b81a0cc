// C05: every DAP value survives a JSON encode/decode round trip.
#include "values.h"

namespace {
using namespace h;

void property(Case& c) {
  auto& t = c.pick(types());
  Gen g;
  g.depth = 1 + int(c.draw(4));
  int mode = int(c.weighted({8, 1, 1}));
  g.badText = mode == 1;
  g.badNumbers = mode == 2;
  auto obj = t.gen(c, g);
  // Deep nesting.
  if (strcmp(t.name, "any") == 0 && c.chance(1, 20)) {
    size_t d = c.draw(200);
    for (size_t i = 0; i < d; i++) {
      auto& a = *static_cast<dap::any*>(obj.get());
      if (c.flip()) {
        dap::object o;
        o["k"] = a;
        a = o;
      } else {
        dap::array<dap::any> l;
        l.push_back(a);
        a = l;
      }
    }
  }
  J want = t.toJ(obj.get());
  pbt::leakCheck(c, [&] {
    for (auto& b : backends()) {
      std::string doc;
      if (!b.encode(t, obj.get(), &doc)) {
        c.fail("%s: %s %s cannot be encoded", b.name, t.name, pbt::esc(toJson(want), 400).c_str());
      }
      J got;
      std::string err;
      if (!parseJson(doc, &got, &err, mode != 0)) {
        c.fail("%s: %s is encoded as invalid JSON (%s): %s", b.name, t.name, err.c_str(),
               pbt::esc(doc, 800).c_str());
      }
      auto back = t.fresh();
      bool ok = b.decode(t, doc, back.get());
      if (mode != 0) continue;  // only that the document is complete
      if (!sameNumbers(got, want)) {
        c.fail("%s: %s %s is encoded as %s", b.name, t.name, pbt::esc(toJson(want), 800).c_str(),
               pbt::esc(doc, 800).c_str());
      }
      if (!ok) {
        c.fail("%s: the encoding of %s cannot be decoded: %s", b.name, t.name,
               pbt::esc(doc, 800).c_str());
      }
      J r = t.toJ(back.get());
      if (!same(r, want)) {
        c.fail("%s: %s %s is decoded as %s (document %s)", b.name, t.name,
               pbt::esc(toJson(want), 800).c_str(), pbt::esc(toJson(r), 800).c_str(),
               pbt::esc(doc, 600).c_str());
      }
    }
  });
  if (c.wantDescription()) c.describe(std::string(t.name) + " " + pbt::esc(toJson(want), 300));
  c.label(t.name);
  if (mode == 1) c.label("invalid UTF-8");
  if (mode == 2) c.label("non-finite numbers");
  if (nodes(want) > 1) c.nontrivial(toJson(want));
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Options o;
  o.name = "c05_roundtrip";
  o.rule =
      "A case is a generated value of one of 15 types (scalars with boundary "
      "bias, any Unicode text, nested any/object/array, structs with every field "
      "kind), encoded and decoded by each of the three back ends; the document "
      "is parsed by an independent parser, the decoded value compared. 1 in 5 "
      "has invalid UTF-8 or non-finite numbers (complete documents only). "
      "Non-trivial: more than one JSON node; distinct: by the document.";
  o.property = property;
  o.quickCases = 300000;
  o.thoroughCases = 30000000;
  o.quickCap = 40;
  o.workerInit = [](int) { h::types(); h::backends(); };
  return pbt::run(argc, argv, o);
}
