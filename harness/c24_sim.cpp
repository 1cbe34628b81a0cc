// C24: TCP streams over a simulated network, under generated schedules and
// faults.
#include "simnet.h"

#include "dap/io.h"
#include "dap/network.h"

#include <algorithm>
#include <memory>
#include <string>
#include <thread>
#include <vector>

namespace {

constexpr uint16_t kPort = 7100;

char byteAt(int end, size_t off) {
  uint64_t x = (uint64_t(off) + 1) * 0x9E3779B97F4A7C15ull + uint64_t(end) * 77;
  return char((x >> 40) ^ (off >> 8));
}
std::string stretch(int end, size_t off, size_t n) {
  std::string s(n, 0);
  for (size_t i = 0; i < n; i++) s[i] = byteAt(end, off + i);
  return s;
}

struct RawOp {
  enum Kind { Put, Take, Finish, Close, Reset, Pause } kind;
  size_t n;
};

struct EndPlan {
  bool raw = false;
  std::vector<size_t> writes;
  std::vector<size_t> reads;  // sizes of the buffers, cycled; empty: no reader
  size_t readLimit = 0;       // stop reading after this many reads, 0: never
  bool closer = false;        // a thread closes the end at any time
  bool closeAfterWrites = false;
  int prober = 0;             // calls of isOpen() at any time
  std::vector<RawOp> script;  // raw ends
};

struct End {
  EndPlan plan;
  std::shared_ptr<dap::ReaderWriter> rw;
  sim::Raw raw;
  // History
  uint64_t closeInv = 0, closeRet = 0;  // also end of output / reset of raw ends
  bool wasReset = false;
  size_t written = 0;    // bytes of the writes that succeeded
  size_t tried = 0;      // plus of the one that failed
  bool writeFailed = false, writing = false;
  size_t got = 0;        // bytes read
  bool eof = false;      // a read returned nothing
  bool reading = false;
  uint64_t readInv = 0, writeInv = 0, lastRet = 0;
  bool readerDone = false, writerDone = false;
  bool aborted = false;  // the script of a raw end is to end
  std::thread script;
};

void property(pbt::Case& c) {
  EndPlan plans[2];
  // End 0 is the client, end 1 the server's end.
  int topo = int(c.weighted({4, 3, 2}));  // both dap, raw server, raw client
  if (topo == 1) plans[1].raw = true;
  if (topo == 2) plans[0].raw = true;
  unsigned partial = unsigned(c.pick(std::vector<int>{0, 1, 6, 14}));
  unsigned eintr = unsigned(c.pick(std::vector<int>{0, 1, 5, 10}));
  size_t capacity = c.pick(std::vector<size_t>{65536, 1, 7, 100, 1500});
  int base = c.pick(std::vector<int>{500, 1021, 5000});
  uint32_t timeout = c.pick(std::vector<uint32_t>{0, 1000, 60000});
  size_t maxWrite = capacity < 100 ? 400 : 6000;
  bool immediate = c.flip();
  // Rarely, megabytes.
  bool large = capacity == 65536 && partial <= 1 && c.chance(1, 100);
  size_t scale = large ? 250 : 1;
  std::string desc = pbt::fmt("topology %d capacity %zu partial %u eintr %u fd %d:", topo, capacity,
                              partial, eintr, base);
  size_t total = 0;
  uint64_t h = uint64_t(topo) + capacity * 31 + partial * 7 + eintr * 3;
  for (int e = 0; e < 2; e++) {
    auto& p = plans[e];
    desc += e ? " | server:" : " client:";
    if (p.raw) {
      size_t n = c.size(8);
      for (size_t i = 0; i < n; i++) {
        auto k = RawOp::Kind(c.weighted({5, 5, 1, 1, 1, 2}));
        size_t m = k == RawOp::Put || k == RawOp::Take ? (1 + c.size(maxWrite)) * scale : 0;
        p.script.push_back({k, m});
        desc += pbt::fmt(" %s%zu", (const char*[]){"put", "take", "fin", "close", "reset", "pause"}[k], m);
        h = pbt::hashBytes(&p.script.back(), sizeof(RawOp), h);
        if (k == RawOp::Close || k == RawOp::Reset) break;
      }
      continue;
    }
    size_t n = large ? 1 + c.draw(6) : c.size(6);
    for (size_t i = 0; i < n; i++) {
      size_t k = large ? c.draw(maxWrite) * scale : c.size(maxWrite);
      p.writes.push_back(k);
      total += k;
      desc += pbt::fmt(" w%zu", k);
      h = h * 31 + k;
    }
    if (!c.chance(1, 6)) {
      size_t m = 1 + c.draw(3);
      for (size_t i = 0; i < m; i++) p.reads.push_back((1 + c.size(maxWrite)) * (large ? 20 : 1));
      if (c.chance(1, 6)) p.readLimit = 1 + c.draw(5);
      desc += pbt::fmt(" r%zu", p.reads[0]);
      h = h * 31 + p.reads[0];
    }
    p.closer = c.chance(1, 5);
    p.closeAfterWrites = c.chance(1, 5);
    p.prober = c.chance(1, 4) ? 1 + int(c.draw(4)) : 0;
    if (p.closer) desc += " closer";
    if (p.closeAfterWrites) desc += " close-after-writes";
    if (p.prober) desc += " isOpen";
    h = h * 16 + size_t(p.closer) * 8 + size_t(p.closeAfterWrites) * 4 + size_t(p.prober);
  }
  int closeOrder = int(c.draw(2));
  bool extraClose = c.flip();
  c.describe(desc);

  size_t partials = 0, eintrs = 0, resets = 0, resetProbes = 0;
  bool blocked = false, abrupt = false;
  vs::Config cfg;
  cfg.earlyTimers = false;
  vs::run(c, [&] {
    sim::Scope scope(c);
    auto& w = scope.world;
    w.base = base;
    w.partial = partial;
    w.eintr = eintr;
    w.capacity = capacity;
    w.immediate = immediate;
    uint64_t clock = 0;
    End ends[2];
    ends[0].plan = plans[0];
    ends[1].plan = plans[1];

    // Connect.
    std::unique_ptr<dap::net::Server> server;
    sim::SockPtr listener;
    std::shared_ptr<dap::ReaderWriter> accepted;
    bool haveAccepted = false;
    if (plans[1].raw) {
      listener = sim::rawListen(kPort, 0);
    } else {
      server = dap::net::Server::create();
      if (!server->start("localhost", kPort,
                         [&](const std::shared_ptr<dap::ReaderWriter>& rw) {
                           accepted = rw;
                           vs::Quiet q;
                           haveAccepted = true;
                         },
                         [&](const char*) {})) {
        c.fail("the server does not start");
      }
    }
    if (plans[0].raw) {
      ends[0].raw = sim::rawConnect(kPort);
    } else {
      ends[0].rw = dap::net::connect("localhost", kPort, timeout);
      if (!ends[0].rw) c.fail("connect to a listening port failed");
    }
    if (plans[1].raw) {
      vs::waitUntil("connection", [&] { return sim::rawReady(listener); });
      ends[1].raw = sim::rawAccept(listener);
    } else {
      vs::waitUntil("callback", [&] { return haveAccepted; });
      server->stop();
      ends[1].rw = accepted;
      accepted.reset();
    }
    size_t openFds = w.fds.size();
    size_t wantFds = (plans[0].raw ? 0u : 1u) + (plans[1].raw ? 0u : 1u);
    if (!server && openFds != wantFds) {
      c.fail("%zu descriptors are open for %zu connected streams", openFds, wantFds);
    }

    std::vector<std::thread> threads;
    auto beginClose = [&](End& e) {
      vs::Quiet q;
      if (!e.closeInv) e.closeInv = ++clock;
    };
    auto endClose = [&](End& e) {
      vs::Quiet q;
      if (!e.closeRet) e.closeRet = ++clock;
    };
    auto doClose = [&](End& e) {
      beginClose(e);
      e.rw->close();
      endClose(e);
    };
    // Whether an operation of end e that returns at `ret` may have failed.
    auto mayFail = [&](int e, uint64_t ret) {
      auto &me = ends[e], &peer = ends[1 - e];
      return (me.closeInv && me.closeInv < ret) || (peer.closeInv && peer.closeInv < ret);
    };
    for (int i = 0; i < 2; i++) {
      auto& e = ends[i];
      if (e.plan.raw) {
        e.script = std::thread([&, i] {
          auto& e = ends[i];
          for (auto& op : e.plan.script) {
            switch (op.kind) {
              case RawOp::Put: {
                std::string b = stretch(i, e.written, op.n);
                while (!b.empty()) {
                  vs::waitUntil("raw room", [&] {
                    return e.aborted || e.raw.room() || e.raw.wasReset();
                  });
                  if (e.aborted || e.raw.wasReset()) return;
                  size_t k = e.raw.put(b);
                  b.erase(0, k);
                  vs::Quiet q;
                  e.written += k;
                  e.tried += k;
                }
                break;
              }
              case RawOp::Take: {
                size_t left = op.n;
                while (left > 0) {
                  vs::waitUntil("raw data", [&] {
                    return e.aborted || e.raw.available() > 0 || e.raw.ended() ||
                           e.raw.wasReset();
                  });
                  if (e.aborted) return;
                  auto b = e.raw.take(left);
                  vs::Quiet q;
                  if (b != stretch(1 - i, e.got, b.size())) {
                    c.fail("the bytes that arrive after %zu are not those written", e.got);
                  }
                  e.got += b.size();
                  left -= b.size();
                  if (b.empty()) break;
                }
                break;
              }
              case RawOp::Finish:
                beginClose(e);
                e.raw.finish();
                return;
              case RawOp::Close:
                beginClose(e);
                e.raw.close();
                endClose(e);
                return;
              case RawOp::Reset:
                beginClose(e);
                e.raw.reset();
                {
                  vs::Quiet q;
                  e.wasReset = true;
                }
                endClose(e);
                return;
              case RawOp::Pause:
                vs::sleep(1000000);
                break;
            }
            vs::yield();
          }
        });
        continue;
      }
      threads.emplace_back([&, i] {
        auto& e = ends[i];
        for (auto n : e.plan.writes) {
          std::string b;
          {
            vs::Quiet q;
            b = stretch(i, e.tried, n);
            e.tried += n;
            e.writeInv = ++clock;
            e.writing = true;
          }
          bool ok = e.rw->write(b.data(), b.size());
          vs::Quiet q;
          auto ret = ++clock;
          e.writing = false;
          e.lastRet = ret;
          if (!ok && !mayFail(i, ret)) c.fail("a write of %zu bytes failed on an open connection", n);
          if (ok && e.closeRet && e.closeRet < e.writeInv) c.fail("a write succeeded after close");
          if (!ok) {
            e.writeFailed = true;
            break;
          }
          e.written += n;
        }
        if (e.plan.closeAfterWrites) doClose(e);
        vs::Quiet q;
        e.writerDone = true;
      });
      if (!e.plan.reads.empty()) {
        threads.emplace_back([&, i] {
          auto& e = ends[i];
          size_t k = 0;
          while (!e.plan.readLimit || k < e.plan.readLimit) {
            size_t n = e.plan.reads[k++ % e.plan.reads.size()];
            std::string buf;
            {
              vs::Quiet q;
              buf.assign(n + 8, char(0xEE));
              e.readInv = ++clock;
              e.reading = true;
            }
            size_t got = e.rw->read(&buf[0], n);
            vs::Quiet q;
            auto ret = ++clock;
            e.reading = false;
            e.lastRet = ret;
            if (got > n) c.fail("read returned more than asked for");
            if (buf.substr(n) != std::string(8, char(0xEE))) c.fail("read wrote past its buffer");
            if (got == 0) {
              e.eof = true;
              if (!mayFail(i, ret)) c.fail("read returned nothing on an open connection");
              // All that the peer wrote before it closed is read first.
              auto& peer = ends[1 - i];
              if (!(e.closeInv && e.closeInv < ret) && !peer.wasReset && w.resets == 0 &&
                  e.got != peer.tried && !peer.writing && !peer.writeFailed) {
                c.fail("read reports the end after %zu of %zu bytes", e.got, peer.tried);
              }
              break;
            }
            if (e.closeRet && e.closeRet < e.readInv) c.fail("read returned data after close");
            if (buf.substr(0, got) != stretch(1 - i, e.got, got)) {
              c.fail("the bytes read after %zu are not those written", e.got);
            }
            e.got += got;
            if (e.got > ends[1 - i].tried) c.fail("more bytes were read than written");
          }
          vs::Quiet q;
          e.readerDone = true;
        });
      } else {
        e.readerDone = true;
      }
      if (e.plan.closer) {
        threads.emplace_back([&, i] { doClose(ends[i]); });
      }
      if (e.plan.prober) {
        threads.emplace_back([&, i] {
          auto& e = ends[i];
          for (int k = 0; k < e.plan.prober; k++) {
            uint64_t inv;
            {
              vs::Quiet q;
              inv = ++clock;
            }
            bool open = e.rw->isOpen();
            vs::Quiet q;
            auto ret = ++clock;
            if (!open && !mayFail(i, ret)) c.fail("an open connection is not open");
            if (open && e.closeRet && e.closeRet < inv) c.fail("a closed connection is open");
            vs::yield();
          }
        });
      }
    }

    vs::waitIdle();
    {
      vs::Quiet q;
      for (int i = 0; i < 2; i++) {
        auto &e = ends[i], &peer = ends[1 - i];
        if (e.plan.raw) continue;
        if (e.reading) {
          blocked = true;
          if (e.closeRet) c.fail("a read is blocked although the connection was closed");
          if (peer.closeInv) c.fail("a read is blocked although the peer has gone");
          if (e.got < peer.written) {
            c.fail("a read is blocked although %zu bytes were written", peer.written - e.got);
          }
        }
        if (e.writing) {
          blocked = true;
          if (e.closeRet) c.fail("a write is blocked although the connection was closed");
          if (peer.closeRet) c.fail("a write is blocked although the peer has gone");
          if (peer.reading) c.fail("both a write and the peer's read are blocked");
        }
        // Nothing was closed: every byte of the writes is there.
        if (!e.closeInv && !peer.closeInv && peer.plan.raw == false && peer.reading &&
            peer.got != e.written) {
          c.fail("%zu bytes were written, %zu arrived", e.written, peer.got);
        }
      }
    }
    // A connection that was reset, and was not used since, is not open.
    for (int i = 0; i < 2; i++) {
      auto &e = ends[i], &peer = ends[1 - i];
      if (e.plan.raw || !peer.wasReset || e.closeInv || e.plan.prober) continue;
      if (e.reading || e.writing || e.lastRet > peer.closeInv) continue;
      resetProbes++;
      if (e.rw->isOpen()) c.fail("a connection that the peer has reset is open");
    }
    // Close both ends.
    for (int k = 0; k < 2; k++) {
      auto& e = ends[closeOrder ? 1 - k : k];
      if (e.plan.raw) {
        {
          vs::Quiet q;
          e.aborted = true;
        }
        e.script.join();
        // All that was written is there.
        if (!e.closeInv && !ends[&e == &ends[0]].closeInv) {
          vs::Quiet q;
          auto b = e.raw.take(1u << 20);
          int peerIdx = &e == &ends[0] ? 1 : 0;
          if (b != stretch(peerIdx, e.got, b.size())) c.fail("wrong bytes arrived");
          e.got += b.size();
          if (e.got < ends[peerIdx].written) {
            c.fail("%zu bytes were written, %zu arrived", ends[peerIdx].written, e.got);
          }
        }
        beginClose(e);
        if (e.raw.valid()) e.raw.close();
        endClose(e);
        continue;
      }
      size_t before = w.fds.size();
      bool wasClosed = e.closeRet != 0;
      doClose(e);
      if (e.rw->isOpen()) c.fail("a closed connection is open");
      char b[4];
      if (e.rw->read(b, 4) != 0) c.fail("read returned data after close");
      if (e.rw->write("abcd", 4)) c.fail("a write succeeded after close");
      if (extraClose) e.rw->close();
      vs::Quiet q;
      (void)before;
      (void)wasClosed;
    }
    for (auto& t : threads) t.join();
    if (w.fds.size() != 0) {
      c.fail("%zu descriptors are still open after both ends were closed", w.fds.size());
    }
    for (int i = 0; i < 2; i++) ends[i].rw.reset();
    server.reset();
    listener.reset();
    vs::Quiet q;
    if (!w.fds.empty()) c.fail("%zu descriptors are leaked", w.fds.size());
    if (w.addrinfos) c.fail("%zu addresses are leaked", w.addrinfos);
    partials = w.partials;
    eintrs = w.eintrs;
    resets = w.resets;
    for (auto& e : ends) abrupt |= e.writeFailed;
    ends[0].raw.s.reset();
    ends[1].raw.s.reset();
  }, cfg);
  c.label("bytes", total);
  if (total > (1u << 20)) c.label("more than 1 MB");
  if (partials) c.label("with partial sends");
  if (eintrs) c.label("with interrupted calls");
  if (resets) c.label("with resets");
  if (resetProbes) c.label("isOpen after an unnoticed reset");
  if (blocked) c.label("closed with a blocked call");
  if (abrupt) c.label("with failed writes");
  if (total > 0 || !plans[0].script.empty() || !plans[1].script.empty()) {
    c.nontrivial(h ^ (vs::switches() * 1000003) ^ (uint64_t(partials) << 32) ^
                 (uint64_t(eintrs) << 48));
  }
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Options o;
  o.name = "c24_sim";
  o.rule =
      "A case is a TCP connection over a simulated network between a "
      "net::connect stream, a net::Server stream or a scripted raw peer, with "
      "generated write and read sizes, buffer capacities, partial transfers, "
      "interrupted calls, closes, half closes and resets at any time, isOpen "
      "probes, and a generated schedule; bytes compared with those written. "
      "Non-trivial: data is sent; distinct: plan, switches and faults.";
  o.property = property;
  o.quickCases = 200000;
  o.thoroughCases = 20000000;
  o.quickCap = 40;
  return pbt::run(argc, argv, o);
}
