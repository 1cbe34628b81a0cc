// C21: RWMutex, RLock and WLock under generated schedules.
#include "vsched.h"

#include "rwmutex.h"

#include <memory>
#include <string>
#include <thread>
#include <vector>

namespace {

constexpr int M = 2;  // mutexes

struct World {
  int readers[M] = {};
  int writers[M] = {};
  int maxReaders = 0;
};

struct Shared {
  dap::RWMutex m[M];
  // Written under the write lock, read under any.
  int64_t a[M] = {};
  int64_t b[M] = {};
};

struct Ctx {
  pbt::Case& c;
  World& w;
  Shared& s;
  bool rendezvous = false;  // readers wait for each other
  int parties = 0;
};

void enterRead(Ctx& x, int i) {
  vs::Quiet q;
  x.w.readers[i]++;
  if (x.w.readers[i] > x.w.maxReaders) x.w.maxReaders = x.w.readers[i];
  if (x.w.writers[i] != 0) x.c.fail("a reader got the lock while it is held by a writer");
}
void leaveRead(Ctx& x, int i) {
  vs::Quiet q;
  if (x.w.writers[i] != 0) x.c.fail("a writer got the lock while it is held by a reader");
  x.w.readers[i]--;
}
void enterWrite(Ctx& x, int i) {
  vs::Quiet q;
  x.w.writers[i]++;
  if (x.w.writers[i] != 1) x.c.fail("two writers hold the lock");
  if (x.w.readers[i] != 0) x.c.fail("a writer got the lock while it is held by a reader");
}
void leaveWrite(Ctx& x, int i) {
  vs::Quiet q;
  if (x.w.writers[i] != 1 || x.w.readers[i] != 0) {
    x.c.fail("the write lock was not exclusive");
  }
  x.w.writers[i]--;
}

// The data protected by the lock. Instrumented, so that a missing ordering is
// reported as a data race.
void readData(Ctx& x, int i) {
  int64_t a = x.s.a[i];
  vs::yield();
  int64_t b = x.s.b[i];
  if (a != b) x.c.fail("a reader sees a half done write");
}
void writeData(Ctx& x, int i) {
  int64_t a = x.s.a[i];
  x.s.a[i] = a + 1;
  vs::yield();
  x.s.b[i] = a + 1;
}

void doRead(Ctx& x, int i) {
  enterRead(x, i);
  readData(x, i);
  leaveRead(x, i);
}
void doWrite(Ctx& x, int i) {
  enterWrite(x, i);
  writeData(x, i);
  leaveWrite(x, i);
}

// One operation of a thread. Never holds two different locks in a way that
// could deadlock by itself.
void op(Ctx& x, int kind, int i) {
  using dap::RLock;
  using dap::WLock;
  auto& m = x.s.m[i];
  auto& n = x.s.m[(i + 1) % M];
  int j = (i + 1) % M;
  switch (kind) {
    case 0: {
      RLock l(m);
      doRead(x, i);
      break;
    }
    case 1: {
      WLock l(m);
      doWrite(x, i);
      break;
    }
    case 2:
      m.lockReader();
      doRead(x, i);
      m.unlockReader();
      break;
    case 3:
      m.lockWriter();
      doWrite(x, i);
      m.unlockWriter();
      break;
    case 4: {  // moved
      RLock l(m);
      enterRead(x, i);
      RLock k(std::move(l));
      readData(x, i);
      leaveRead(x, i);
      break;
    }
    case 5: {
      WLock l(m);
      enterWrite(x, i);
      WLock k(std::move(l));
      writeData(x, i);
      leaveWrite(x, i);
      break;
    }
    case 6: {  // move assigned: the first lock is released
      if (i == 1) {  // locks are taken in order
        RLock l(m);
        doRead(x, i);
        break;
      }
      RLock l(m);
      doRead(x, i);
      RLock k(n);
      enterRead(x, j);
      l = std::move(k);
      readData(x, j);
      leaveRead(x, j);
      break;
    }
    case 7: {
      if (i == 1) {
        WLock l(m);
        doWrite(x, i);
        break;
      }
      WLock l(m);
      doWrite(x, i);
      {
        WLock k(n);
        enterWrite(x, j);
        l = std::move(k);
      }
      writeData(x, j);
      leaveWrite(x, j);
      break;
    }
    case 8: {  // self move
      RLock l(m);
      enterRead(x, i);
      auto& alias = l;
      l = std::move(alias);
      readData(x, i);
      leaveRead(x, i);
      break;
    }
    case 9: {
      WLock l(m);
      enterWrite(x, i);
      auto& alias = l;
      l = std::move(alias);
      writeData(x, i);
      leaveWrite(x, i);
      break;
    }
    case 10: {  // nested readers of the same thread
      RLock l(m);
      enterRead(x, i);
      {
        RLock k(m);
        doRead(x, i);
      }
      readData(x, i);
      leaveRead(x, i);
      break;
    }
    default: {  // assign to a moved-from lock
      RLock l(m);
      enterRead(x, i);
      RLock k(std::move(l));
      l = std::move(k);
      readData(x, i);
      leaveRead(x, i);
      break;
    }
  }
}

const char* kNames[] = {"R",      "W",      "r",      "w",     "Rmove", "Wmove",
                        "Rassign", "Wassign", "Rself", "Wself", "Rnest", "Rback"};

// Any number of readers.
void manyReaders(pbt::Case& c) {
  size_t n = 2 + c.draw(c.chance(1, 20) ? 70000 : 400);
  size_t byThread = c.draw(4);
  vs::run(c, [&] {
    dap::RWMutex m;
    int64_t data = 0;
    bool got = false;
    std::vector<std::thread> threads;
    bool release = false;
    for (size_t t = 0; t < byThread; t++) {
      threads.emplace_back([&] {
        dap::RLock l(m);
        vs::waitUntil("the release", [&] { return release; });
        if (data) c.fail("a reader sees a write");
      });
    }
    vs::waitIdle();
    for (size_t i = 0; i < n; i++) m.lockReader();
    std::thread writer([&] {
      dap::WLock l(m);
      data++;
      vs::Quiet q;
      got = true;
    });
    vs::waitIdle();
    if (got) c.fail("a writer got the lock while %zu readers hold it", n + byThread);
    for (size_t i = 1; i < n; i++) m.unlockReader();
    vs::waitIdle();
    if (got) c.fail("a writer got the lock while %zu of %zu readers hold it", 1 + byThread, n + byThread);
    {
      vs::Quiet q;
      release = true;
    }
    for (auto& t : threads) t.join();
    vs::waitIdle();
    if (got) c.fail("a writer got the lock while 1 of %zu readers holds it", n + byThread);
    if (data) c.fail("a reader sees a write");
    m.unlockReader();
    writer.join();
    dap::WLock l(m);
    if (data != 1) c.fail("a write was lost");
  });
  auto desc = pbt::fmt("%zu readers and %zu threads with one each, then a writer", n, byThread);
  c.describe(desc);
  c.label("many readers");
  c.nontrivial(desc + std::to_string(vs::switches()));
}

void property(pbt::Case& c) {
  if (c.chance(1, 400)) {
    manyReaders(c);
    return;
  }
  int T = 1 + int(c.draw(5));
  bool writers = !c.chance(1, 5);
  std::vector<std::vector<std::pair<int, int>>> ops;
  std::string desc;
  bool anyW = false, anyR = false;
  // A nested reader would wait for a pending writer if writers had priority.
  bool nested = false;
  for (int t = 0; t < T; t++) {
    std::vector<std::pair<int, int>> v;
    int n = 1 + int(c.draw(5));
    desc += pbt::fmt("%sT%d:", t ? " | " : "", t);
    for (int k = 0; k < n; k++) {
      int kind;
      do {
        kind = int(c.draw(12));
        if (!writers && (kind == 1 || kind == 3 || kind == 5 || kind == 7 ||
                         kind == 9)) {
          kind--;
        }
      } while (false);
      if (kind == 10 && writers) kind = 0;
      int i = int(c.draw(M));
      bool w = kind == 1 || kind == 3 || kind == 5 || kind == 7 || kind == 9;
      (w ? anyW : anyR) = true;
      nested |= kind == 10;
      v.push_back({kind, i});
      desc += pbt::fmt(" %s%d", kNames[kind], i);
    }
    ops.push_back(v);
  }
  bool together = !anyW && T > 1 && c.flip();
  if (together) desc += " | readers hold together";
  vs::run(c, [&] {
    World w;
    std::unique_ptr<Shared> s(new Shared());
    Ctx x{c, w, *s};
    std::vector<std::thread> threads;
    int inside = 0;
    for (int t = 0; t < T; t++) {
      threads.emplace_back([&, t] {
        for (auto& o : ops[size_t(t)]) op(x, o.first, o.second);
        if (together) {
          dap::RLock l(s->m[0]);
          enterRead(x, 0);
          {
            vs::Quiet q;
            inside++;
          }
          vs::waitUntil("all readers hold the lock", [&] { return inside == T; });
          readData(x, 0);
          leaveRead(x, 0);
        }
      });
    }
    for (auto& t : threads) t.join();
    // Everything was released: a writer gets each lock, and so does a reader.
    int64_t sum = 0;
    for (int i = 0; i < M; i++) {
      {
        dap::WLock l(s->m[i]);
        doWrite(x, i);
        sum += s->a[i];
      }
      // Exactly once: a lock released too often lets a writer in next to a
      // reader.
      bool got = false;
      std::thread other;
      {
        dap::RLock l(s->m[i]);
        enterRead(x, i);
        other = std::thread([&] {
          dap::WLock k(s->m[i]);
          enterWrite(x, i);
          leaveWrite(x, i);
          vs::Quiet q;
          got = true;
        });
        vs::waitIdle();
        if (got) c.fail("a writer got the lock while a reader holds it");
        leaveRead(x, i);
      }
      other.join();
      // And one next to a writer.
      got = false;
      {
        dap::WLock l(s->m[i]);
        enterWrite(x, i);
        other = std::thread([&] {
          dap::RLock k(s->m[i]);
          enterRead(x, i);
          leaveRead(x, i);
          vs::Quiet q;
          got = true;
        });
        vs::waitIdle();
        if (got) c.fail("a reader got the lock while a writer holds it");
        leaveWrite(x, i);
      }
      other.join();
    }
    c.label(w.maxReaders > 1 ? "readers together" : "no readers together");
  });
  c.describe(desc);
  c.label("preemptions", vs::preemptions());
  if (T > 1) {
    c.nontrivial(desc + std::to_string(vs::switches()) + "/" +
                 std::to_string(vs::preemptions()));
  }
  (void)anyR;
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Options o;
  o.name = "c21_rwmutex";
  o.rule =
      "A case is a schedule plus 1-5 threads with 1-5 operations each on two "
      "RWMutexes: scoped and explicit read/write locks, moved, move-assigned, "
      "self-moved and nested ones (1 in 400: up to 70000 read locks at once and "
      "a waiting writer); exclusion is checked by counters and by the "
      "race detector on the protected data, a lost wakeup is a deadlock, and at "
      "the end each lock is probed for a missing or surplus release. "
      "Non-trivial: several threads; distinct: operations and number of "
      "switches and preemptions.";
  o.property = property;
  o.quickCases = 200000;
  o.thoroughCases = 30000000;
  o.quickCap = 40;
  return pbt::run(argc, argv, o);
}
