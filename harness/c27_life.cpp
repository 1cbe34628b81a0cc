// C27: histories of initialize, terminate and use of types, including their use
// by the destructors of global values.
#include "c27.h"
#include "pbt.h"

#include "dap/dap.h"

#include <memory>

namespace {

int64_t base = 0;       // live allocations before the library was used
bool ran = false;
int lateTerminates = 0;  // made by the destructors of globals
bool useAtExit = false;

[[noreturn]] void bad(const std::string& s) { pbt::failNow(s); }

// Static objects are destructed in the reverse order of their construction:
// `last` after the holders.
struct Last {
  ~Last() {
    if (!ran) return;
    while (lateTerminates > 0) {
      lateTerminates--;
      dap::terminate();
    }
    int64_t n = pbt::liveAllocs() - base;
    if (n > 0) bad(pbt::fmt("%lld allocations are leaked", (long long)n));
  }
} last;

struct Holder {
  dap::any value;
  const c27::Entry* entry = nullptr;
  const dap::TypeInfo* type = nullptr;
  bool drop = false;  // releases a reference after its use
  void use(const char* when) {
    if (!entry) return;
    if (entry->type() != type) bad(pbt::fmt("%s: the descriptor of %s has changed", when, entry->name));
    auto name = type->name();
    if (!entry->named(name)) bad(pbt::fmt("%s: %s is named '%s'", when, entry->name, name.c_str()));
    if (!entry->holds(value)) bad(pbt::fmt("%s: the value of type %s has changed", when, entry->name));
    {
      dap::any copy(value);
      if (!entry->holds(copy)) bad(pbt::fmt("%s: the copy of a %s is different", when, entry->name));
      dap::any other;
      other = copy;
      if (!entry->holds(other)) bad(pbt::fmt("%s: the copy of a %s is different", when, entry->name));
    }
    if (auto err = entry->exercise()) bad(pbt::fmt("%s: %s: %s", when, entry->name, err));
  }
  void set(const c27::Entry* e) {
    entry = e;
    type = e->type();
    e->fill(value);
  }
  ~Holder() {
    if (ran && useAtExit) use("at exit");
    if (drop) {
      value = dap::any();
      entry = nullptr;
      lateTerminates--;
      dap::terminate();
    }
  }
};

Holder holders[4];

// Objects that are made when a type is first used, so that they are destructed
// before the library's state even if initialize() was not called.
template <int N>
Holder& local(const c27::Entry* e) {
  struct Local : public Holder {
    explicit Local(const c27::Entry* e) {
      set(e);
    }
    ~Local() { use("in the destructor of a static"); }
  };
  static Local l(e);
  return l;
}

void property(pbt::Case& c) {
  auto& all = c27::entries();
  base = pbt::liveAllocs();
  ran = true;
  int refs = int(c.weighted({2, 4, 2, 1}));
  size_t n = c.size(14);
  std::string desc = pbt::fmt("initialize x%d:", refs);
  uint64_t h = uint64_t(refs);
  int made = 0, released = 0;
  size_t uses = 0;
  // The last reference is released by a global's destructor.
  bool held = refs > 0 && c.chance(3, 4);
  auto init = [&] {
    dap::initialize();
    made++;
    desc += " init";
    h = h * 31 + 1;
  };
  bool early = c.flip();
  if (early) {
    while (made < refs) init();
  }
  for (size_t i = 0; i < n; i++) {
    auto& hd = holders[c.draw(4)];
    auto e = &all[c.draw(all.size())];
    switch (c.weighted({5, 5, 2, 2, 1, 1})) {
      case 0:
        desc += pbt::fmt(" set %s", e->name);
        hd.set(e);
        h = h * 31 + size_t(e - &all[0]) * 8 + 2;
        break;
      case 1:
        desc += " use";
        hd.use("in main");
        h = h * 31 + 3;
        uses++;
        break;
      case 2:
        if (made < refs && released == 0) init();
        break;
      case 3:
        // Terminate while further references are held.
        if (made == refs && released + (held ? 1 : 0) < refs) {
          dap::terminate();
          released++;
          desc += " term";
          h = h * 31 + 4;
        }
        break;
      case 4: {
        desc += pbt::fmt(" static %s", e->name);
        int k = int(c.draw(3));
        h = h * 31 + size_t(e - &all[0]) * 8 + 5 + size_t(k);
        (k == 0 ? local<0>(e) : k == 1 ? local<1>(e) : local<2>(e)).use("in main");
        break;
      }
      case 5:
        desc += pbt::fmt(" ask %s", e->name);
        if (auto err = e->exercise()) c.fail("%s: %s", e->name, err);
        if (!e->named(e->type()->name())) c.fail("%s is named '%s'", e->name, e->type()->name().c_str());
        h = h * 31 + size_t(e - &all[0]) * 8 + 1;
        break;
    }
  }
  while (made < refs) init();
  // All but those held for the exit.
  int late = held ? 1 + int(c.draw(uint64_t(refs - released))) : 0;
  while (refs - released > late) {
    dap::terminate();
    released++;
    desc += " term";
  }
  lateTerminates = late;
  useAtExit = held;
  if (held) {
    // Some of the holders release a reference; the last one is left to `last`.
    for (auto& x : holders) {
      if (late > 1 && c.chance(1, 3)) {
        x.drop = true;
        late--;
      }
    }
    desc += pbt::fmt(" exit with %d reference(s)", lateTerminates);
  } else {
    for (auto& x : holders) {
      x.value = dap::any();
      x.entry = nullptr;
    }
    desc += " exit";
  }
  h = h * 31 + uint64_t(lateTerminates);
  size_t alive = 0;
  for (auto& x : holders) alive += x.entry != nullptr;
  c.describe(desc);
  c.label("global values alive at exit", alive);
  c.label("uses", uses);
  if (alive || uses || refs) c.nontrivial(h);
}

}  // namespace

int main(int argc, char** argv) {
  c27::entries();
  pbt::Options o;
  o.name = "c27_life";
  o.rule =
      "A case is a process with a history of initialize, terminate, and making, "
      "copying and asking for values of 37 types in globals and statics, which "
      "ends by exit() with the library still referenced or not; the globals are "
      "used again by their destructors, the last reference is released after "
      "them, and no allocation may be left. Non-trivial: a global value or a "
      "reference exists; distinct: history.";
  o.property = property;
  o.quickCases = 12000;
  o.thoroughCases = 3000000;
  o.quickCap = 30;
  o.forkPerCase = true;
  o.exitPerCase = true;
  return pbt::run(argc, argv, o);
}
