// C27: threads that are the first to ask for type descriptors.
#include "c27.h"
#include "vsched.h"

#include "dap/dap.h"

#include <algorithm>
#include <set>
#include <thread>

namespace {

void property(pbt::Case& c) {
  auto& all = c27::entries();
  int T = 1 + int(c.weighted({1, 5, 2, 1}));
  int refs = int(c.draw(3));
  // Few types, so that threads ask for the same ones.
  std::vector<size_t> pool;
  size_t n = 1 + c.draw(6);
  for (size_t i = 0; i < n; i++) pool.push_back(c.draw(all.size()));
  std::vector<std::vector<size_t>> plan;
  plan.resize(size_t(T));
  std::string desc = pbt::fmt("initialize x%d:", refs);
  uint64_t h = uint64_t(refs);
  for (auto& p : plan) {
    size_t k = 1 + c.draw(6);
    desc += " {";
    for (size_t i = 0; i < k; i++) {
      p.push_back(pool[c.draw(pool.size())]);
      desc += pbt::fmt(" %s", all[p.back()].name);
      h = h * 131 + p.back();
    }
    desc += " }";
  }
  c.describe(desc);
  std::vector<const dap::TypeInfo*> seen(all.size());
  std::set<size_t> asked;
  vs::run(c, [&] {
    for (int i = 0; i < refs; i++) dap::initialize();
    std::vector<std::thread> ts;
    for (int i = 0; i < T; i++) {
      ts.emplace_back([&, i] {
        for (auto k : plan[size_t(i)]) {
          auto p = all[k].type();
          auto name = p->name();
          vs::Quiet q;
          asked.insert(k);
          if (seen[k] && seen[k] != p) c.fail("%s has two descriptors", all[k].name);
          seen[k] = p;
          if (!all[k].named(name)) c.fail("%s is named '%s'", all[k].name, name.c_str());
        }
        if (i < refs) dap::terminate();
      });
    }
    for (auto& t : ts) t.join();
    for (auto k : asked) {
      if (all[k].type() != seen[k]) c.fail("the descriptor of %s has changed", all[k].name);
      if (auto err = all[k].exercise()) c.fail("%s: %s", all[k].name, err);
      for (auto o : asked) {
        if (o != k && seen[o] == seen[k]) {
          c.fail("%s and %s have the same descriptor", all[o].name, all[k].name);
        }
      }
    }
    for (int i = T; i < refs; i++) dap::terminate();
  });
  c.label("types", asked.size());
  c.label("preemptions", vs::preemptions());
  if (T > 1) c.nontrivial(h ^ (vs::switches() * 1000003) ^ (vs::preemptions() << 40));
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Options o;
  o.name = "c27_race";
  o.rule =
      "A case is a process with 1-4 threads that ask for 1-6 of 37 type "
      "descriptors each (basic, array, optional, variant, struct, nested), drawn "
      "from a small pool, while initialize() references are released, under a "
      "generated schedule; descriptors are compared between threads, and "
      "exercised. Non-trivial: at least two threads; distinct: plan, switches "
      "and preemptions.";
  o.property = property;
  o.quickCases = 20000;
  o.thoroughCases = 5000000;
  o.quickCap = 30;
  o.forkPerCase = true;
  return pbt::run(argc, argv, o);
}
