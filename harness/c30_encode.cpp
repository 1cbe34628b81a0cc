// C30: a value is encoded completely or not at all (back ends).
#include "values.h"
#include "c30.h"

namespace {
using namespace h;

void property(Case& c) {
  static const uint64_t rates[] = {0, 100, 40, 12, 4};
  HoleGen g{c, rates[c.draw(5)]};
  g.maxLen = 1 + c.draw(4);
  int depth = int(c.draw(4));
  J j;
  const dap::TypeInfo* info = nullptr;
  std::shared_ptr<void> obj;
  auto set = [&](auto v) {
    using T = decltype(v);
    info = dap::TypeOf<T>::type();
    obj = std::make_shared<T>(std::move(v));
  };
  const char* name = "";
  switch (c.draw(6)) {
    case 0: name = "any"; set(g.value(depth, &j)); break;
    case 1: name = "array<any>"; set(g.list(depth, &j)); break;
    case 2: name = "object"; set(g.object(depth, &j)); break;
    case 3: name = "struct"; set(g.fill<dap::VHole>(depth, &j)); break;
    case 4: name = "derived struct"; set(g.fill<dap::VHoleDerived>(depth, &j)); break;
    default: name = "custom type"; set(g.picky(&j));
  }
  bool want = g.holes == 0;
  for (auto& b : backends()) {
    auto s = b.serializer();
    bool got = info->serialize(s.get(), obj.get());
    if (got != want) {
      c.fail("%s: serializing a %s with %d unencodable values in %d places %s: %s", b.name, name, g.holes,
             g.places, got ? "succeeds" : "fails", pbt::esc(toJson(j), 800).c_str());
    }
    // As part of an object.
    auto s2 = b.serializer();
    bool after = false;
    got = s2->object([&](dap::FieldSerializer* fs) {
      if (!fs->field("before", dap::integer(1))) return false;
      if (!fs->field("x", [&](dap::Serializer* s) { return info->serialize(s, obj.get()); })) return false;
      after = true;
      return fs->field("after", dap::integer(2));
    });
    if (got != want || after != want) {
      c.fail("%s: serializing an object with a %s with %d unencodable values %s: %s", b.name, name, g.holes,
             got || after ? "succeeds" : "fails", pbt::esc(toJson(j), 800).c_str());
    }
    // As the last element of an array.
    auto s3 = b.serializer();
    int k = 0;
    got = s3->array(3, [&](dap::Serializer* s) {
      return ++k < 3 ? s->serialize(dap::integer(k)) : info->serialize(s, obj.get());
    });
    if (got != want) {
      c.fail("%s: serializing an array with a %s with %d unencodable values %s: %s", b.name, name, g.holes,
             got ? "succeeds" : "fails", pbt::esc(toJson(j), 800).c_str());
    }
    if (!want) continue;
    J doc, o = J::obj(), a = J::arr();
    o.add("before", J::integer(1));
    o.add("x", j);
    o.add("after", J::integer(2));
    a.push(J::integer(1));
    a.push(J::integer(2));
    a.push(j);
    const std::pair<dap::Serializer*, const J*> all[] = {{s.get(), &j}, {s2.get(), &o}, {s3.get(), &a}};
    for (auto& x : all) {
      std::string text = b.dump(x.first), err;
      if (!parseJson(text, &doc, &err)) c.fail("%s: not JSON: %s", b.name, pbt::esc(text, 600).c_str());
      if (!sameNumbers(doc, *x.second)) {
        c.fail("%s: a %s is encoded as %s instead of %s", b.name, name, pbt::esc(text, 600).c_str(),
               pbt::esc(toJson(*x.second), 600).c_str());
      }
    }
  }
  c.label(want ? "encodable" : "unencodable");
  if (g.holes == 1) c.label("one unencodable value");
  c.describe(pbt::fmt("%s, %d of %d places unencodable: %s", name, g.holes, g.places,
                      pbt::esc(toJson(j), 200).c_str()));
  if (g.holes && g.places > 1) c.nontrivial(pbt::hashStr(toJson(j), uint64_t(g.holes)));
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Options o;
  o.name = "c30_encode";
  o.rule =
      "A case is an any, array, object, struct, derived struct or custom type "
      "value with any number of unencodable values (of a type whose own "
      "serialization fails) at drawn places and depths, serialized by each "
      "back end alone and as part of an object and an array: success exactly if "
      "there is no such value, and then the document denotes the value. "
      "Non-trivial: an unencodable value among others; distinct: by value.";
  o.property = property;
  o.quickCases = 200000;
  o.thoroughCases = 15000000;
  o.quickCap = 40;
  o.workerInit = [](int) { h::types(); h::backends(); };
  return pbt::run(argc, argv, o);
}
