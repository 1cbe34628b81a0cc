// C20: Chan under generated schedules: exactly once, FIFO, no lost wakeups.
#include "vsched.h"

#include "chan.h"

#include <memory>
#include <string>
#include <thread>
#include <vector>

namespace {

struct Put {
  int producer, index, round;
  uint64_t inv, ret;
};
struct Take {
  int consumer, round;
  uint64_t inv, ret;
  bool value;
  std::string item;
};

struct World {
  uint64_t clock = 0;
  std::vector<Put> puts;
  std::vector<Take> takes;
  int inTake = 0;
  uint64_t closeInv = 0, closeRet = 0;
};

std::string itemName(int round, int p, int i, bool big) {
  auto s = pbt::fmt("%d.%d.%d", round, p, i);
  if (big) s += std::string(40, 'x');
  return s;
}

void check(pbt::Case& c, const std::vector<Put>& puts,
           const std::vector<Take>& takes, uint64_t closeInv, bool drained,
           bool big) {
  // Exactly once.
  std::vector<const Take*> takenBy(puts.size(), nullptr);
  for (auto& t : takes) {
    if (!t.value) continue;
    bool found = false;
    for (size_t i = 0; i < puts.size(); i++) {
      if (itemName(puts[i].round, puts[i].producer, puts[i].index, big) ==
          t.item) {
        if (takenBy[i]) c.fail("item %s was taken twice", t.item.c_str());
        takenBy[i] = &t;
        found = true;
        if (puts[i].inv > t.ret) c.fail("item %s taken before it was put", t.item.c_str());
      }
    }
    if (!found) {
      c.fail("take returned '%s', which was not put in this round",
             pbt::esc(t.item).c_str());
    }
  }
  for (size_t i = 0; i < puts.size(); i++) {
    if (!takenBy[i] && drained && puts[i].ret != 0 &&
        (closeInv == 0 || puts[i].ret < closeInv)) {
      c.fail("item %s was put before the close but never taken",
             itemName(puts[i].round, puts[i].producer, puts[i].index, big).c_str());
    }
    for (size_t k = 0; k < puts.size(); k++) {
      if (puts[i].ret != 0 && puts[i].ret < puts[k].inv) {
        // i is before k
        if (takenBy[i] && takenBy[k] && takenBy[k]->ret < takenBy[i]->inv) {
          c.fail("item %d.%d was put after %d.%d, but taken before it",
                 puts[k].producer, puts[k].index, puts[i].producer,
                 puts[i].index);
        }
        if (!takenBy[i] && takenBy[k]) {
          c.fail("item %d.%d was taken, but not the earlier %d.%d",
                 puts[k].producer, puts[k].index, puts[i].producer,
                 puts[i].index);
        }
      }
    }
  }
  for (auto& t : takes) {
    if (t.value) continue;
    if (closeInv == 0 || closeInv > t.ret) {
      c.fail("take returned no value although the queue was not closed");
    }
    for (size_t i = 0; i < puts.size(); i++) {
      if (puts[i].ret != 0 && puts[i].ret < t.inv && puts[i].ret < closeInv) {
        if (!takenBy[i] || takenBy[i]->inv > t.ret) {
          c.fail("take returned no value although an item was queued");
        }
      }
    }
  }
}

// Many queued items: as many as fit in memory are kept.
void bulk(pbt::Case& c) {
  size_t n = 50 + c.draw(c.chance(1, 4) ? 5000 : 500);
  int P = 1 + int(c.draw(3));
  bool late = c.flip();  // taken after all of them were put
  size_t inFirst = c.draw(n);
  vs::run(c, [&] {
    dap::Chan<std::string> chan;
    std::vector<std::thread> threads;
    for (int p = 0; p < P; p++) {
      threads.emplace_back([&, p] {
        for (size_t i = 0; i < n; i++) {
          std::string item = pbt::fmt("%d.%zu", p, i);
          if (i % 2) {
            chan.put(std::move(item));
          } else {
            chan.put(item);
          }
        }
      });
    }
    if (late) vs::waitIdle();
    std::vector<size_t> next(size_t(P), 0);
    for (size_t k = 0; k < n * size_t(P); k++) {
      if (k == inFirst && !late) vs::waitIdle();
      auto v = chan.take();
      if (!v) c.fail("take returned no value although the queue was not closed");
      vs::Quiet q;
      int p = 0;
      size_t i = 0;
      if (sscanf(v.value().c_str(), "%d.%zu", &p, &i) != 2 || p < 0 || p >= P) {
        c.fail("take returned '%s', which was not put", pbt::esc(v.value()).c_str());
      }
      if (i != next[size_t(p)]) {
        c.fail("item %zu of producer %d was taken, the next one is %zu (%zu of %zu taken)", i, p,
               next[size_t(p)], k, n * size_t(P));
      }
      next[size_t(p)]++;
    }
    chan.close();
    if (chan.take()) c.fail("take returned a value although the queue is closed and empty");
    for (auto& t : threads) t.join();
  });
  auto desc = pbt::fmt("%d producer(s) of %zu items, taken %s", P, n, late ? "later" : "meanwhile");
  c.describe(desc);
  c.label("many items");
  c.nontrivial(desc + std::to_string(vs::switches()));
}

void property(pbt::Case& c) {
  if (c.chance(1, 1000)) {
    bulk(c);
    return;
  }
  int rounds = 1 + int(c.draw(3));
  bool big = c.flip();
  std::string desc;
  bool mixed = false;
  vs::run(c, [&] {
    auto chan = std::make_shared<dap::Chan<std::string>>();
    for (int r = 0; r < rounds; r++) {
      World w;
      int P = int(c.draw(4));
      int C = int(c.draw(4));
      if (P == 0 && C == 0) P = 1;
      std::vector<int> nPut, nTake;
      int total = 0;
      for (int i = 0; i < P; i++) {
        nPut.push_back(1 + int(c.draw(4)));
        total += nPut.back();
      }
      for (int i = 0; i < C; i++) {
        // 0: until the queue is closed
        nTake.push_back(int(c.draw(4)));
      }
      // 0: close when idle, 1: close at any time, 2: not closed unless needed
      int closeMode = int(c.draw(3));
      bool drain = c.flip();
      if (P > 1 || (P && C) || closeMode == 1) mixed = true;
      desc += pbt::fmt("round: %d producers of %d items, %d takers, close %d%s; ",
                       P, total, C, closeMode, drain ? ", drained" : "");
      std::vector<std::thread> threads;
      auto doTake = [&](int who) {
        Take t;
        {
          vs::Quiet q;
          t.consumer = who;
          t.round = r;
          t.inv = ++w.clock;
          w.inTake++;
        }
        auto v = chan->take();
        vs::Quiet q;
        t.ret = ++w.clock;
        w.inTake--;
        t.value = v.has_value();
        if (v) t.item = v.value();
        w.takes.push_back(t);
        return t.value;
      };
      auto doClose = [&] {
        {
          vs::Quiet q;
          if (w.closeInv == 0) w.closeInv = ++w.clock;
        }
        chan->close();
        vs::Quiet q;
        if (w.closeRet == 0) w.closeRet = ++w.clock;
      };
      for (int p = 0; p < P; p++) {
        threads.emplace_back([&, p] {
          for (int i = 0; i < nPut[p]; i++) {
            size_t slot;
            std::string item;
            bool move;
            {
              vs::Quiet q;
              slot = w.puts.size();
              w.puts.push_back({p, i, r, ++w.clock, 0});
              item = itemName(r, p, i, big);
              move = (i + p) % 2;
            }
            if (move) {
              chan->put(std::move(item));
            } else {
              const std::string& k = item;
              chan->put(k);
            }
            vs::Quiet q;
            w.puts[slot].ret = ++w.clock;
          }
        });
      }
      for (int k = 0; k < C; k++) {
        threads.emplace_back([&, k] {
          for (int i = 0; nTake[k] == 0 || i < nTake[k]; i++) {
            if (!doTake(k)) {
              if (nTake[k] == 0) break;
            }
          }
        });
      }
      if (closeMode == 1) threads.emplace_back(doClose);
      vs::waitIdle();
      if (w.inTake > 0) {
        // Takers that are blocked, with no one left to wake them.
        size_t got = 0;
        for (auto& t : w.takes) got += t.value;
        if (w.closeRet != 0) c.fail("a taker is blocked although the queue is closed");
        if (w.puts.size() > got) {
          c.fail("a taker is blocked although %zu item(s) are queued",
                 w.puts.size() - got);
        }
        doClose();
      } else if (closeMode == 0) {
        doClose();
      }
      for (auto& t : threads) t.join();
      if (drain) {
        if (w.closeInv == 0) doClose();
        while (doTake(-1)) {
        }
        doTake(-1);
      }
      {
        vs::Quiet q;
        check(c, w.puts, w.takes, w.closeInv, drain, big);
      }
      if (r + 1 < rounds) chan->reset();
    }
  });
  c.describe(desc);
  c.label("preemptions", vs::preemptions());
  if (mixed) c.nontrivial(desc + std::to_string(vs::switches()) + "/" + std::to_string(vs::preemptions()));
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Options o;
  o.name = "c20_chan";
  o.rule =
      "A case is a schedule plus 1-3 rounds (reset in between) of 0-3 producers "
      "and 0-3 takers on one Chan<std::string>, closed when idle, at any time or "
      "not at all, or (1 in 1000) of 50-5500 items per producer; history checked for exactly-once, FIFO, no-value only when "
      "closed and empty, no blocked taker with queued items. Non-trivial: "
      "several threads use the queue at once; distinct: shape of the rounds and "
      "number of switches and preemptions.";
  o.property = property;
  o.quickCases = 400000;
  o.thoroughCases = 30000000;
  o.quickCap = 40;
  return pbt::run(argc, argv, o);
}
