// C07: typed decoding rejects mismatches and leaves absent optionals unset.
#include "values.h"

namespace {
using namespace h;

void property(Case& c) {
  auto& t = c.pick(types());
  Gen g;
  g.depth = 1 + int(c.draw(4));
  J j = t.toJ(t.gen(c, g).get());
  Gen m;
  m.depth = 2;
  for (size_t n = c.draw(4); n > 0; n--) mutate(c, j, t.schema.get(), m);
  if (t.schema->variant && j.kind != J::Int && j.kind != J::Str && j.kind != J::Bool &&
      j.kind != J::Num && j.kind != J::Null) {
    return;
  }
  JsonStyle st;
  st.c = &c;
  st.spaces = c.chance(1, 4);
  st.escapes = c.chance(1, 4);
  std::string doc = toJson(j, st);
  J want;
  bool ok = t.schema->decode(j, &want);
  for (auto& b : backends()) {
    auto obj = t.fresh();
    bool got = b.decode(t, doc, obj.get());
    if (got != ok) {
      c.fail("%s: decoding to %s %s: %s", b.name, t.name,
             got ? "succeeds although a value is missing or of another type"
                 : "fails although all required values are there",
             pbt::esc(doc, 1000).c_str());
    }
    if (!ok) continue;
    J v = t.toJ(obj.get());
    if (!same(v, want)) {
      c.fail("%s: decoded to %s: %s instead of %s (document %s)", b.name, t.name,
             pbt::esc(toJson(v), 600).c_str(), pbt::esc(toJson(want), 600).c_str(),
             pbt::esc(doc, 600).c_str());
    }
  }
  c.label(ok ? "accepted" : "rejected");
  if (ok && !same(j, want)) c.label("accepted with dropped parts");
  if (c.wantDescription()) c.describe(std::string(t.name) + " " + pbt::esc(doc, 300));
  if (t.schema->kind == Schema::Struct || t.schema->kind == Schema::Arr) {
    c.nontrivial(std::string(t.name) + doc);
  }
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Options o;
  o.name = "c07_typed";
  o.rule =
      "A case is a document of one of 15 types with 0-3 changes at any depth "
      "(dropped, renamed, added, reordered, retyped fields and elements), decoded "
      "by each back end and compared with a model of the type (verdict and "
      "value). Non-trivial: struct and array types; distinct: by type and "
      "document.";
  o.property = property;
  o.quickCases = 300000;
  o.thoroughCases = 30000000;
  o.quickCap = 40;
  o.workerInit = [](int) { h::types(); h::backends(); };
  return pbt::run(argc, argv, o);
}
