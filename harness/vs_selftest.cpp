// Checks the scheduler itself: toy programs with known defects.
#include "vsched.h"
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <thread>
#include <chrono>
#include <memory>
#include <stdlib.h>
static int kind;
int main(int argc, char** argv) {
  kind = atoi(getenv("KIND") ?: "0");
  pbt::Options o;
  o.name = "vs_selftest";
  o.rule = "toy";
  o.quickCases = 20000;
  o.property = [](pbt::Case& c) {
    vs::run(c, [&] {
      std::mutex m, m2;
      std::condition_variable cv;
      int x = 0;
      bool flag = false;
      std::atomic<int> at{0};
      switch (kind) {
        case 0: {  // correct
          std::thread a([&] { std::unique_lock<std::mutex> l(m); x++; flag = true; cv.notify_all(); });
          std::thread b([&] { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return flag; }); x++; });
          std::thread d([&] { std::unique_lock<std::mutex> l(m);
             bool r = cv.wait_for(l, std::chrono::milliseconds(50), [&] { return flag; }); x += r; });
          a.join(); b.join(); d.join();
          std::this_thread::sleep_for(std::chrono::seconds(5));
          c.label(x == 3 ? "ready" : "timeout");
          break;
        }
        case 1: {  // race
          std::thread a([&] { x++; });
          std::thread b([&] { std::unique_lock<std::mutex> l(m); x++; });
          a.join(); b.join();
          break;
        }
        case 2: {  // lock order
          std::thread a([&] { std::unique_lock<std::mutex> l(m); std::unique_lock<std::mutex> k(m2); });
          std::thread b([&] { std::unique_lock<std::mutex> l(m2); std::unique_lock<std::mutex> k(m); });
          a.join(); b.join();
          break;
        }
        case 3: {  // lost wakeup
          std::thread a([&] { { std::unique_lock<std::mutex> l(m); if (flag) return; } std::unique_lock<std::mutex> l(m); cv.wait(l); });
          std::thread b([&] { std::unique_lock<std::mutex> l(m); flag = true; cv.notify_all(); });
          a.join(); b.join();
          break;
        }
        case 4: {  // atomic check then act
          auto f = [&] { int v = at.load(); at.store(v + 1); };
          std::thread a(f), b(f);
          a.join(); b.join();
          if (at != 2) c.fail("lost update");
          break;
        }
        case 5: {  // use after free
          auto p = new int(1);
          std::atomic<bool> done{false};
          std::thread a([&] { if (!done.load()) { vs::yield(); *p = 3; } });
          done = true;
          delete p;
          a.join();
          break;
        }
        case 6: {  // spin
          std::thread a([&] { while (!at.load()) {} });
          std::thread b([&] { at = 1; });
          a.join(); b.join();
          break;
        }
      }
      c.label(vs::preemptions() ? "preempted" : "plain");
      c.nontrivial(vs::switches());
    });
  };
  return pbt::run(argc, argv, o);
}
