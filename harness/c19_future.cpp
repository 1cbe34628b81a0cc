// C19: promise/future under generated schedules and virtual time.
#include "vsched.h"

#include "dap/future.h"

#include <chrono>
#include <memory>
#include <string>
#include <thread>
#include <vector>

namespace {

using namespace std::chrono;

struct Big {
  int a = 0;
  std::string s;
  std::vector<int> v;
  bool operator==(const Big& o) const {
    return a == o.a && s == o.s && v == o.v;
  }
};

template <typename T>
T make(int k);
template <>
int make<int>(int k) {
  return k + 1;
}
template <>
std::string make<std::string>(int k) {
  return "a string that is not stored inline " + std::to_string(k);
}
template <>
Big make<Big>(int k) {
  return {k, std::string(size_t(k % 40), 'b'), std::vector<int>(size_t(k % 7), k)};
}

const int64_t kUnits[] = {1, 1000000, 1000000000, 3600000000000};

struct Op {
  int unit = 0;  // of wait_for
  int kind;  // 0 get, 1 wait, 2 wait_for, 3 wait_until steady, 4 system, 5 drop
  int64_t ns;
};

std::string opName(const Op& o) {
  static const char* n[] = {"get", "wait", "wait_for", "wait_until(steady)",
                            "wait_until(system)"};
  return o.kind >= 2 ? pbt::fmt("%s %lldns", n[o.kind], (long long)o.ns)
                     : n[o.kind];
}

template <typename T>
void scenario(pbt::Case& c) {
  int W = 1 + int(c.draw(4));
  bool set = !c.chance(1, 6);
  int64_t setAfter = c.flip() ? 0 : int64_t(c.draw(2000)) * 100000;
  bool setMove = c.flip();
  int promises = 1 + int(c.draw(3));
  bool dropPromises = c.flip();
  std::vector<std::vector<Op>> ops;
  std::string desc = set ? pbt::fmt("set after %lldns", (long long)setAfter)
                         : std::string("never set");
  for (int i = 0; i < W; i++) {
    std::vector<Op> v;
    int n = int(1 + c.draw(4));
    for (int k = 0; k < n; k++) {
      Op o;
      o.kind = set ? int(c.draw(5)) : 2 + int(c.draw(3));
      o.ns = 0;
      switch (c.draw(4)) {
        case 0:
          o.ns = -int64_t(c.draw(1000000));
          break;
        case 1:
          o.ns = 0;
          break;
        case 2:
          o.ns = int64_t(c.draw(2000)) * 100000;
          break;
        case 3:
          o.ns = int64_t(c.draw(1000)) * 3600000000000ll;
          break;
      }
      // Durations of other types.
      o.unit = o.kind == 2 ? int(c.draw(6)) : 0;
      if (o.unit < 4) o.ns = o.ns / kUnits[o.unit] * kUnits[o.unit];
      v.push_back(o);
      desc += "; waiter " + std::to_string(i) + " " + opName(o);
    }
    ops.push_back(v);
  }
  int value = int(c.draw(1000));
  bool concurrent = false;
  vs::run(c, [&] {
    int64_t setInv = -1, setRet = -1;      // virtual time
    uint64_t clock = 0, setInvC = 0, setRetC = 0;
    const T expect = make<T>(value);
    std::vector<std::thread> threads;
    {
      dap::promise<T> p;
      std::vector<dap::promise<T>> copies;
      for (int i = 1; i < promises; i++) copies.push_back(p);
      std::vector<std::unique_ptr<dap::future<T>>> futures;
      for (int i = 0; i < W; i++) {
        auto& src = i % 2 && !copies.empty() ? copies.back() : p;
        dap::future<T> f = src.get_future();
        if (!f.valid()) c.fail("the future of a promise is not valid");
        futures.emplace_back(new dap::future<T>(std::move(f)));
        if (f.valid()) c.fail("a moved-from future is still valid");
        if (!futures.back()->valid()) c.fail("a moved future is not valid");
      }
      // The setter has a copy of its own, which may be the last one.
      if (set) {
        threads.emplace_back([&, p] {
          if (setAfter) vs::sleep(setAfter);
          T v = expect;
          {
            vs::Quiet q;
            setInv = vs::now();
            setInvC = ++clock;
          }
          if (setMove) {
            p.set_value(std::move(v));
          } else {
            p.set_value(v);
          }
          vs::Quiet q;
          setRet = vs::now();
          setRetC = ++clock;
        });
      }
      for (int i = 0; i < W; i++) {
        auto f = std::shared_ptr<dap::future<T>>(futures[size_t(i)].release());
        threads.emplace_back([&, f, i] {
          for (auto& o : ops[size_t(i)]) {
            uint64_t inv, ret;
            int64_t t0, t1;
            bool ready = true;
            int64_t deadline = 0;
            {
              vs::Quiet q;
              inv = ++clock;
              t0 = vs::now();
              if (setInvC && !setRetC) concurrent = true;
            }
            bool timed = false;
            switch (o.kind) {
              case 0: {
                T v = f->get();
                if (!(v == expect)) c.fail("get() returned another value");
                break;
              }
              case 1:
                f->wait();
                break;
              case 2:
                timed = true;
                switch (o.unit) {
                  case 1: ready = f->wait_for(milliseconds(o.ns / kUnits[1])) == dap::future_status::ready; break;
                  case 2: ready = f->wait_for(seconds(o.ns / kUnits[2])) == dap::future_status::ready; break;
                  case 3: ready = f->wait_for(hours(o.ns / kUnits[3])) == dap::future_status::ready; break;
                  case 4: ready = f->wait_for(duration<double>(double(o.ns) / 1e9)) == dap::future_status::ready; break;
                  case 5: ready = f->wait_for(duration<double, std::milli>(double(o.ns) / 1e6)) == dap::future_status::ready; break;
                  default: ready = f->wait_for(nanoseconds(o.ns)) == dap::future_status::ready;
                }
                // Floating-point durations are not exact.
                if (o.unit >= 4) t0 -= o.ns / 1000000000 + 2;
                deadline = t0 + o.ns;
                break;
              case 3: {
                timed = true;
                auto tp = steady_clock::now() + nanoseconds(o.ns);
                deadline = t0 + o.ns;
                ready = f->wait_until(tp) == dap::future_status::ready;
                break;
              }
              default: {
                timed = true;
                auto tp = system_clock::now() + nanoseconds(o.ns);
                deadline = t0 + o.ns;
                ready = f->wait_until(tp) == dap::future_status::ready;
                break;
              }
            }
            vs::Quiet q;
            ret = ++clock;
            t1 = vs::now();
            if (ready && (setInvC == 0 || setInvC > ret)) {
              c.fail("%s reports ready before the value was set",
                     opName(o).c_str());
            }
            if (timed && !ready) {
              if (t1 < deadline) {
                c.fail("%s timed out %lldns early", opName(o).c_str(),
                       (long long)(deadline - t1));
              }
              if (setRetC && setRetC < inv) {
                c.fail("%s timed out although the value was set before the call",
                       opName(o).c_str());
              }
              if (setRetC && setRetC < ret && setRet < deadline) {
                c.fail("%s timed out although the value was set before the "
                       "deadline",
                       opName(o).c_str());
              }
            }
            if (timed) c.label(ready ? "timed ready" : "timed out");
          }
        });
        f.reset();
      }
      if (!dropPromises) vs::yield();
      if (dropPromises) {
        copies.clear();
      } else {
        for (auto& t : threads) t.join();
        threads.clear();
      }
    }
    for (auto& t : threads) t.join();
    (void)setInv;
  });
  c.describe(desc);
  if (concurrent) c.label("waiting while being set");
  c.label("preemptions", vs::preemptions());
  if (W > 1 || set) {
    c.nontrivial(desc + std::to_string(vs::switches()) + "/" +
                 std::to_string(vs::preemptions()));
  }
}

void property(pbt::Case& c) {
  switch (c.draw(3)) {
    case 0:
      return scenario<int>(c);
    case 1:
      return scenario<std::string>(c);
    default:
      return scenario<Big>(c);
  }
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Options o;
  o.name = "c19_future";
  o.rule =
      "A case is a schedule plus one promise (copied up to twice) of int, string "
      "or struct, set or not after a virtual delay, and 1-4 waiter threads with "
      "1-4 get/wait/wait_for/wait_until calls of past, zero, short and very long "
      "timeouts; promise and future objects die in any order. Non-trivial: a "
      "setter or several waiters; distinct: operations and number of switches.";
  o.property = property;
  o.quickCases = 400000;
  o.thoroughCases = 30000000;
  o.quickCap = 40;
  return pbt::run(argc, argv, o);
}
