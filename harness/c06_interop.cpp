// C06: the three JSON back ends are interchangeable on the wire.
#include "values.h"

namespace {
using namespace h;

// What a back end writes, the others read.
void pairs(Case& c) {
  auto& t = c.pick(types());
  Gen g;
  g.depth = 1 + int(c.draw(4));
  auto obj = t.gen(c, g);
  J want = t.toJ(obj.get());
  for (auto& w : backends()) {
    std::string doc;
    if (!w.encode(t, obj.get(), &doc)) {
      c.fail("%s: %s %s cannot be encoded", w.name, t.name, pbt::esc(toJson(want), 400).c_str());
    }
    for (auto& r : backends()) {
      auto back = t.fresh();
      if (!r.decode(t, doc, back.get())) {
        c.fail("%s rejects the %s written by %s: %s", r.name, t.name, w.name,
               pbt::esc(doc, 800).c_str());
      }
      J got = t.toJ(back.get());
      if (!same(got, want)) {
        c.fail("%s reads the %s written by %s, %s, as %s", r.name, t.name, w.name,
               pbt::esc(doc, 800).c_str(), pbt::esc(toJson(got), 800).c_str());
      }
    }
  }
  c.label("written and read");
  if (c.wantDescription()) c.describe(std::string(t.name) + " " + pbt::esc(toJson(want), 300));
  if (nodes(want) > 1) c.nontrivial(toJson(want));
}

// All of them read a document in the same way.
void documents(Case& c) {
  auto& t = c.pick(types());
  Gen g;
  g.depth = 1 + int(c.draw(4));
  J j;
  if (c.chance(1, 4)) {
    j = genDoc(c, g);
  } else {
    j = t.toJ(t.gen(c, g).get());
    g.depth = 2;
    for (size_t n = c.draw(4); n > 0; n--) mutate(c, j, nullptr, g);
  }
  JsonStyle st;
  st.c = &c;
  st.spaces = c.flip();
  st.escapes = c.flip();
  st.numbers = c.flip();
  std::string doc;
  if (st.spaces && c.flip()) doc += c.flip() ? "\n" : " ";
  writeJson(doc, j, st);
  if (st.spaces && c.flip()) doc += c.flip() ? "\r\n" : "\t ";

  const Backend* first = nullptr;
  bool firstOk = false;
  J firstVal;
  for (auto& r : backends()) {
    auto back = t.fresh();
    bool ok = r.decode(t, doc, back.get());
    J got = ok ? t.toJ(back.get()) : J();
    if (!first) {
      first = &r;
      firstOk = ok;
      firstVal = got;
      continue;
    }
    if (ok != firstOk) {
      c.fail("%s %s and %s %s as %s: %s", first->name, firstOk ? "accepts" : "rejects", r.name,
             ok ? "accepts" : "rejects", t.name, pbt::esc(doc, 800).c_str());
    }
    if (!same(got, firstVal)) {
      c.fail("%s reads %s and %s reads %s as %s: %s", first->name,
             pbt::esc(toJson(firstVal), 400).c_str(), r.name, pbt::esc(toJson(got), 400).c_str(),
             t.name, pbt::esc(doc, 800).c_str());
    }
  }
  c.label(firstOk ? "accepted document" : "rejected document");
  if (c.wantDescription()) c.describe(std::string(t.name) + " " + pbt::esc(doc, 300));
  c.nontrivial(std::string(t.name) + doc);
}

void property(Case& c) {
  if (c.draw(3) == 0) {
    pairs(c);
  } else {
    documents(c);
  }
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Options o;
  o.name = "c06_interop";
  o.rule =
      "A case is either a generated value of one of 15 types, written by each "
      "back end and read by each back end (9 pairs), or a generated JSON "
      "document (a value of the type with 0-3 changes, or of any shape; free "
      "white space, escapes, number syntax), read as one of the types by each "
      "back end. Non-trivial: a value of more than one node, or a document; "
      "distinct: by type and document.";
  o.property = property;
  o.quickCases = 250000;
  o.thoroughCases = 30000000;
  o.quickCap = 40;
  o.workerInit = [](int) { h::types(); h::backends(); };
  return pbt::run(argc, argv, o);
}
