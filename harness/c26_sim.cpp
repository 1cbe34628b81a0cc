// C26: connecting over a simulated network with virtual time.
#include "simnet.h"

#include "dap/io.h"
#include "dap/network.h"

#include <algorithm>
#include <memory>
#include <string>
#include <thread>
#include <vector>

namespace {

constexpr uint16_t kPort = 7300;
constexpr int64_t kMs = 1000000;

enum Target { Listening, Saturated, Absent, Unresolvable, Unroutable, BadPort };

struct Plan {
  Target target;
  uint32_t timeout;
  int64_t event = -1;  // Saturated: when something happens, ns; -1 never
  bool frees = true;   // Saturated: it frees (or the listener goes)
  int port = kPort;
  bool named = false;  // "localhost" instead of "127.0.0.1"
};

const char* kTargets[] = {"listening", "saturated", "absent", "unresolvable", "unroutable",
                          "badport"};

uint32_t genTimeout(pbt::Case& c) {
  switch (c.draw(5)) {
    case 0: return 0;
    case 1: return uint32_t(1 + c.draw(30));
    case 2: return c.pick(std::vector<uint32_t>{999, 1000, 1001, 1500, 1999, 2000, 2147, 4294,
                                                4295, 60000, 65535, 65536});
    case 3:
      return c.pick(std::vector<uint32_t>{2147483u, 4294967u, 4294968u, 2147483647u, 2147483648u,
                                          4294967295u, 3600000u, 3600001u, 16777216u});
    default: return uint32_t(c.bits() >> (32 + c.draw(32)));
  }
}

void property(pbt::Case& c) {
  unsigned eintr = unsigned(c.pick(std::vector<int>{0, 0, 2, 10}));
  int base = c.pick(std::vector<int>{500, 1020, 1024, 8000});
  bool immediate = c.flip();
  size_t n = 1 + c.draw(3);
  std::vector<Plan> plans;
  std::string desc = pbt::fmt("eintr %u fd %d:", eintr, base);
  uint64_t h = eintr + uint64_t(base) * 31;
  for (size_t i = 0; i < n; i++) {
    Plan p;
    p.target = Target(c.weighted({4, 8, 2, 1, 1, 1}));
    p.timeout = genTimeout(c);
    p.named = c.flip();
    if (p.target == BadPort) {
      p.port = c.pick(std::vector<int>{70000, 65536 + kPort, 131072 + kPort, kPort - 65536, -1,
                                       65536, 0x40000000 + kPort});
    }
    if (p.target == Saturated) {
      p.frees = !c.chance(1, 4);
      int64_t t = int64_t(p.timeout) * kMs;
      switch (c.draw(5)) {
        case 0:  // never
          if (p.timeout) break;
          // fallthrough
        case 1:
          p.event = int64_t(c.draw(40)) * kMs + int64_t(c.draw(1000)) * 1000;
          break;
        case 2:
          p.event = t - int64_t(c.draw(3) + 1) * kMs;
          break;
        case 3:
          p.event = t + int64_t(c.draw(3) + 1) * kMs;
          break;
        default:
          p.event = t / 16 * int64_t(c.draw(32));
      }
      if (p.timeout == 0 && p.event < 0) p.event = kMs;
      // Without a timeout, it waits for as long as it takes.
      if (p.timeout == 0 && c.chance(1, 3)) p.event = int64_t(c.draw(5000)) * 1000 * kMs;
      if (p.event < -1) p.event = 0;
    }
    plans.push_back(p);
    desc += pbt::fmt(" %s timeout %u", kTargets[p.target], p.timeout);
    if (p.target == BadPort) desc += pbt::fmt(" port %d", p.port);
    if (p.target == Saturated) {
      desc += p.event < 0 ? std::string(" forever")
                          : pbt::fmt(" %s after %lld us", p.frees ? "frees" : "gone",
                                     (long long)(p.event / 1000));
    }
    h = h * 1000003 + uint64_t(p.target) + p.timeout * 8ull + uint64_t(p.event) * 31;
  }
  c.describe(desc);

  size_t timeouts = 0, connected = 0, eintrs = 0;
  vs::Config cfg;
  cfg.earlyTimers = false;
  vs::run(c, [&] {
    sim::Scope scope(c);
    auto& w = scope.world;
    w.base = base;
    w.eintr = eintr;
    w.immediate = immediate;
    for (auto& p : plans) {
      sim::SockPtr listener;
      std::vector<sim::Raw> fill;
      std::thread helper;
      bool stopHelper = false;
      int64_t happened = -1;  // when the helper acted
      size_t conns0 = w.connects;
      if (p.target == Listening || p.target == Saturated || p.target == BadPort) listener = sim::rawListen(kPort, 0);
      int64_t t0 = vs::now();
      if (p.target == Saturated) {
        {
          vs::Quiet q;
          fill.push_back(sim::rawConnect(kPort));
        }
        if (p.event >= 0) {
          helper = std::thread([&] {
            if (vs::waitUntil("end", [&] { return stopHelper; }, t0 + p.event)) return;
            vs::Quiet q;
            if (stopHelper) return;
            happened = vs::now() - t0;
            if (p.frees) {
              auto r = sim::rawAccept(listener);
              (void)r;
            } else {
              listener.reset();
            }
          });
        }
      }
      const char* addr = p.target == Unresolvable ? "no such host"
                         : p.target == Unroutable ? "203.0.113.9"
                         : p.named                ? "localhost"
                                                  : "127.0.0.1";
      auto rw = dap::net::connect(addr, p.port, p.timeout);
      int64_t dt = vs::now() - t0;
      int64_t event;
      {
        vs::Quiet q;
        stopHelper = true;
        event = happened;
      }
      int64_t limit = int64_t(p.timeout) * kMs;
      const int64_t slack = 100 * kMs;
      bool must = false, mustNot = false;
      switch (p.target) {
        case Listening: must = true; break;
        case Saturated:
          if (!p.frees || event < 0) mustNot = true;
          else if (p.timeout == 0 || event <= limit - kMs) must = true;
          else if (event > limit + slack) mustNot = true;
          break;
        default: mustNot = true;
      }
      if (must && !rw) {
        c.fail("no stream after %lld ms with a timeout of %u ms (%s)", (long long)(dt / kMs),
               p.timeout, kTargets[p.target]);
      }
      if (!rw && p.target == Saturated && !p.timeout && event < 0) {
        c.fail("gave up after %lld s, without a timeout", (long long)(dt / kMs / 1000));
      }
      if (mustNot && rw) c.fail("a stream to a listener that accepted nothing");
      if (!rw && p.target == Saturated && p.timeout &&
          !(event >= 0 && !p.frees)) {
        timeouts++;
        if (dt < limit) {
          c.fail("gave up after %lld us, the timeout is %u ms", (long long)(dt / 1000), p.timeout);
        }
      }
      if (p.timeout && dt > limit + slack) {
        c.fail("returned after %lld ms, the timeout is %u ms", (long long)(dt / kMs), p.timeout);
      }
      if (p.target != Saturated && dt > slack) {
        c.fail("took %lld ms to connect to a %s port", (long long)(dt / kMs), kTargets[p.target]);
      }
      if (p.target == Saturated && event >= 0 && dt > event + slack) {
        c.fail("returned %lld ms after the listener was ready", (long long)((dt - event) / kMs));
      }
      if (helper.joinable()) helper.join();
      if (!rw) {
        vs::Quiet q;
        if (!w.fds.empty()) c.fail("a failed connect leaves a descriptor open");
        if (w.addrinfos) c.fail("a failed connect leaks its address");
      }
      if (rw) {
        connected++;
        if (!rw->isOpen()) c.fail("the new stream is not open");
        // The listener's end.
        sim::Raw peer;
        {
          vs::Quiet q;
          if (w.connects - conns0 != (p.target == Saturated ? 2u : 1u)) {
            c.fail("%zu connections were made", w.connects - conns0);
          }
          for (auto& f : fill) f.close();
        }
        for (int k = 0; k < 2; k++) {
          peer = sim::rawAccept(listener);
          if (!peer.valid()) c.fail("the stream is not connected to the listener");
          if (!peer.s->conn->gone[0]) break;
          peer.close();
        }
        // It blocks until data arrives.
        bool sent = false;
        std::thread sender([&] {
          vs::sleep(50 * kMs);
          vs::Quiet q;
          sent = true;
          peer.put("hello");
        });
        char buf[8] = {};
        size_t got = rw->read(buf, 8);
        {
          vs::Quiet q;
          if (!sent) c.fail("read returned %zu before data was sent", got);
        }
        sender.join();
        while (got > 0 && got < 5) {
          size_t k = rw->read(buf + got, 8 - got);
          if (k == 0) break;
          got += k;
        }
        if (got != 5 || memcmp(buf, "hello", 5) != 0) c.fail("read %zu bytes of hello", got);
        if (!rw->write("world", 5)) c.fail("write to the new stream failed");
        if (peer.take(10) != "world") c.fail("the bytes written did not arrive");
        // Larger than the buffers: blocks, too.
        bool drained = false;
        std::string big(100000, 'b');
        std::thread drain([&] {
          vs::sleep(20 * kMs);
          size_t total = 0;
          while (total < big.size()) {
            vs::waitUntil("data", [&] { return peer.available() > 0 || peer.ended(); });
            auto s = peer.take(30000);
            if (s.empty()) break;
            total += s.size();
          }
          vs::Quiet q;
          drained = total == big.size();
        });
        bool ok = rw->write(big.data(), big.size());
        if (!ok) c.fail("a large write to the new stream failed");
        drain.join();
        if (!drained) c.fail("a large write did not arrive");
        rw->close();
        rw.reset();
        vs::Quiet q;
        peer.close();
      }
      vs::Quiet q;
      fill.clear();
      listener.reset();
      if (!w.fds.empty()) c.fail("%zu descriptors are left open", w.fds.size());
      if (w.addrinfos) c.fail("%zu addresses are leaked", w.addrinfos);
    }
    eintrs = w.eintrs;
  }, cfg);
  c.label("connected", connected);
  c.label("timed out", timeouts);
  if (eintrs) c.label("with interrupted calls");
  c.nontrivial(h ^ (vs::switches() << 20) ^ (uint64_t(eintrs) << 50));
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Options o;
  o.name = "c26_sim";
  o.rule =
      "A case is 1-3 connects over a simulated network to a listening, "
      "saturated (freed, gone or stuck at a generated time), absent, "
      "unresolvable, unroutable or badly numbered target, with timeouts from 0 "
      "to 2^32-1 ms, descriptor numbers around and above FD_SETSIZE, "
      "interrupted waits, in virtual time; the result and the time taken are "
      "compared with the model, the stream must block. Non-trivial: all; "
      "distinct: plan, switches and interruptions.";
  o.property = property;
  o.quickCases = 150000;
  o.thoroughCases = 20000000;
  o.quickCap = 40;
  return pbt::run(argc, argv, o);
}
