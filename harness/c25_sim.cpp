// C25: histories of TCP servers over a simulated network, under generated
// schedules.
#include "simnet.h"

#include "dap/io.h"
#include "dap/network.h"

#include <algorithm>
#include <map>
#include <memory>
#include <string>
#include <thread>
#include <vector>

namespace {

struct Op {
  enum Kind { Start, Stop, Destroy, Client, Occupy, Vacate, StopThread, Pause, Idle, Fault } kind;
  int server = 0;
  int port = 0;      // 0, 1
  int oddPort = 0;   // Start: if not 0, a port number that is none
  int addr = 0;      // Start: 0 "localhost", 1 no address, 2 "127.0.0.1", 3.. bad
  int style = 0;     // Start: of the callback; Client: 0 echo, 1 slow echo, 2 silent
  bool raw = false;  // Client
  uint32_t timeout = 0;
};

// A start, or anything that ends the generation before.
struct Gen {
  int server = 0;
  uint16_t port = 0;
  uint64_t inv = 0, ret = 0;
  bool ok = false;
  size_t errors = 0;
  size_t faults = 0;  // failing accept() calls
  int active = 0;  // running callbacks
};
struct End {
  int server = 0;
  uint64_t inv = 0, ret = 0;
};

const char* kNames[] = {"start", "stop", "destroy", "client", "occupy",
                        "vacate", "stopper", "pause", "idle", "fault"};
const char* kAddrs[] = {"localhost", nullptr, "127.0.0.1", "no.such.host.", "10.1.2.3"};

void property(pbt::Case& c) {
  int S = 1 + int(c.draw(2));
  unsigned eintr = unsigned(c.pick(std::vector<int>{0, 0, 1, 6}));
  unsigned partial = unsigned(c.pick(std::vector<int>{0, 0, 8}));
  int base = c.pick(std::vector<int>{500, 1021});
  std::vector<Op> ops;
  size_t n = 2 + (c.flip() ? c.size(12) : c.draw(16));
  std::string desc = pbt::fmt("%d server(s) eintr %u:", S, eintr);
  uint64_t h = eintr;
  size_t clients = 0, starts = 0;
  bool faulty = c.chance(1, 4);
  for (size_t i = 0; i < n; i++) {
    Op o;
    o.kind = Op::Kind(i == 0 && c.chance(3, 4) ? 0 : c.weighted({10, 6, 2, 24, 2, 4, 4, 2, 16, faulty ? 4u : 0u}));
    o.server = int(c.draw(uint64_t(S)));
    o.port = int(c.weighted({4, 1}));
    if (o.kind == Op::Start) {
      o.addr = int(c.weighted({5, 3, 3, 1, 1}));
      o.style = int(c.draw(3));
      if (c.chance(1, 12)) {
        o.oddPort = c.pick(std::vector<int>{-1, -7200, 65536, 65536 + 7200, 65536 * 2 + 7201, INT32_MAX, INT32_MIN,
                                            INT32_MIN + 7200});
      }
      starts++;
    }
    if (o.kind == Op::Client) {
      o.style = int(c.weighted({4, 1, 1}));
      o.raw = c.chance(1, 3);
      o.timeout = c.pick(std::vector<uint32_t>{0, 1000, 100000});
      clients++;
    }
    ops.push_back(o);
    desc += pbt::fmt(" %s", kNames[o.kind]);
    if (o.kind == Op::Client) {
      desc += pbt::fmt("%s(port%d style%d)", o.raw ? "-raw" : "", o.port, o.style);
    } else if (o.kind == Op::Start) {
      desc += pbt::fmt("%d(%s,port%d,style%d)", o.server, kAddrs[o.addr] ? kAddrs[o.addr] : "-",
                       o.oddPort ? o.oddPort : o.port, o.style);
    } else if (o.kind == Op::Occupy || o.kind == Op::Vacate) {
      desc += pbt::fmt("(port%d)", o.port);
    } else if (o.kind <= Op::Destroy || o.kind == Op::StopThread) {
      desc += pbt::fmt("%d", o.server);
    }
    h = h * 1000003 + uint64_t(o.kind) + uint64_t(o.server) * 16 + uint64_t(o.port) * 64 +
        uint64_t(o.addr) * 256 + uint64_t(o.style) * 4096 + uint64_t(o.raw) * 65536 + uint64_t(int64_t(o.oddPort)) * 131;
  }
  c.describe(desc);

  size_t served = 0, mustServe = 0, failedStarts = 0, cut = 0, faults = 0;
  vs::Config cfg;
  cfg.earlyTimers = false;
  vs::run(c, [&] {
    sim::Scope scope(c);
    auto& w = scope.world;
    w.base = base;
    w.eintr = eintr;
    w.partial = partial;
    uint64_t clock = 0;
    std::vector<std::unique_ptr<Gen>> gens;
    std::vector<std::unique_ptr<End>> endings;
    std::vector<std::unique_ptr<dap::net::Server>> servers;
    for (int i = 0; i < S; i++) servers.push_back(dap::net::Server::create());
    std::vector<std::vector<std::thread>> stoppers{size_t(S)};
    std::vector<std::thread> clientThreads, handlers;
    std::vector<std::shared_ptr<dap::ReaderWriter>> held;
    std::map<uint32_t, int> callbacks;  // by the id of the client
    size_t called = 0;
    sim::SockPtr occupant[2];
    uint32_t nextId = 100;

    // Whether generation g was over when something happened at time t: a stop
    // that began after it started has returned.
    auto over = [&](const Gen& g, uint64_t t) {
      for (auto& e : endings) {
        if (e->server == g.server && g.ret && e->inv > g.ret && e->ret && e->ret < t) return true;
      }
      return false;
    };
    // Whether generation g ran from before `from` until after `to`, untouched.
    auto untouched = [&](const Gen& g, uint64_t from, uint64_t to) {
      if (!g.ok || !g.ret || g.ret > from || g.faults) return false;
      for (auto& e : endings) {
        if (e->server == g.server && e->inv < to && (!e->ret || e->ret > g.inv) &&
            e->inv != g.inv) {
          return false;
        }
      }
      return true;
    };
    // A failing accept() of one of these generations.
    struct AcceptError {
      std::vector<Gen*> of;
      size_t errors = 0;
    };
    std::vector<AcceptError> acceptErrors;
    w.onAcceptError = [&](uint16_t port, int) {
      AcceptError a;
      for (auto& g : gens) {
        if (g->port != port || (g->ret && !g->ok) || over(*g, ++clock)) continue;
        g->faults++;
        a.of.push_back(g.get());
        a.errors += g->errors;
      }
      acceptErrors.push_back(a);
    };
    // When nothing is running: a server that was not stopped has reported it.
    auto checkReported = [&] {
      vs::Quiet q;
      for (auto& a : acceptErrors) {
        size_t errors = 0;
        bool ended = false;
        for (auto g : a.of) {
          errors += g->errors;
          for (auto& e : endings) {
            ended |= e->server == g->server && e->inv != g->inv && (!e->ret || e->ret > g->inv);
          }
        }
        if (!ended && errors <= a.errors) c.fail("a failure to accept a connection is not reported");
      }
      for (auto& g : gens) {
        if (g->ret && g->ok && g->errors > g->faults) {
          c.fail("a server reports %zu errors, %zu calls failed", g->errors, g->faults);
        }
      }
    };
    auto begin = [&](int server) {
      vs::Quiet q;
      endings.emplace_back(new End);
      endings.back()->server = server;
      endings.back()->inv = ++clock;
      return endings.back().get();
    };
    auto finish = [&](End* e) {
      vs::Quiet q;
      e->ret = ++clock;
      for (auto& g : gens) {
        if (g->server == e->server && g->ret && g->ret < e->inv && g->active > 0) {
          c.fail("the connection callback is still running after stop returned");
        }
      }
    };
    auto echo = [&](const std::shared_ptr<dap::ReaderWriter>& rw) {
      char b[4];
      size_t k = 0;
      while (k < 4) {
        size_t r = rw->read(b + k, 4 - k);
        if (r == 0) return false;
        k += r;
      }
      uint32_t id;
      memcpy(&id, b, 4);
      {
        vs::Quiet q;
        if (callbacks[id]++) c.fail("client %u was handed to two callbacks", id);
      }
      id ^= 0x55555555;
      memcpy(b, &id, 4);
      return rw->write(b, 4);
    };

    for (auto& o : ops) {
      size_t si = size_t(o.server);
      uint16_t port = uint16_t(7200 + o.port);
      switch (o.kind) {
        case Op::Start: {
          auto e = begin(o.server);
          Gen* g;
          bool certainlyBusy = false, maybeBusy = false;
          {
            vs::Quiet q;
            gens.emplace_back(new Gen);
            g = gens.back().get();
            g->server = o.server;
            g->port = o.oddPort ? 0 : port;
            g->inv = e->inv;
            if (occupant[o.port]) certainlyBusy = true;
            for (auto& x : gens) {
              if (x.get() == g || x->server == o.server || !x->ok || x->port != port) continue;
              if (!over(*x, clock)) maybeBusy = true;
              if (untouched(*x, clock, UINT64_MAX)) certainlyBusy = true;
            }
          }
          int style = o.style;
          auto onConnect = [&, g, style](const std::shared_ptr<dap::ReaderWriter>& rw) {
            {
              vs::Quiet q;
              called++;
              g->active++;
              if (over(*g, ++clock)) c.fail("the connection callback is called after stop returned");
            }
            if (style == 1) {
              std::thread t([&echo, rw] {
                echo(rw);
                rw->close();
              });
              vs::Quiet q;
              handlers.emplace_back(std::move(t));
            } else {
              echo(rw);
              if (style == 0) {
                rw->close();
              } else {
                vs::Quiet q;
                held.push_back(rw);
              }
            }
            vs::Quiet q;
            g->active--;
          };
          auto onError = [&, g](const char* msg) {
            vs::Quiet q;
            if (!msg) c.fail("an error without message was reported");
            g->errors++;
          };
          int number = o.oddPort ? o.oddPort : port;
          bool ok = kAddrs[o.addr]
                        ? servers[si]->start(kAddrs[o.addr], number, onConnect, onError)
                        : servers[si]->start(number, onConnect, onError);
          vs::Quiet q;
          g->ok = ok;
          finish(e);
          g->ret = ++clock;
          for (auto& x : gens) {
            // Gone before the start of this one began.
            if (x.get() != g && x->server == o.server && x->ok && over(*x, clock)) x->ok = false;
          }
          // A generation of the other server may have ended while this one
          // started, but not one that nobody ended.
          if (certainlyBusy && !occupant[o.port]) {
            certainlyBusy = false;
            for (auto& x : gens) {
              if (x.get() != g && x->server != o.server && x->port == port &&
                  untouched(*x, g->inv, UINT64_MAX)) {
                certainlyBusy = true;
              }
            }
          }
          if (o.oddPort && ok) c.fail("a server starts on port %d", o.oddPort);
          bool bad = o.addr >= 3 || o.oddPort;
          if (ok && bad) c.fail("a server starts on an unusable address");
          if (ok && certainlyBusy) c.fail("a server starts on an occupied port");
          if (!ok && !bad && !maybeBusy && !certainlyBusy) {
            c.fail("a server does not start on a free port");
          }
          if (!ok) {
            failedStarts++;
            if (g->errors == 0) c.fail("a failing start reports no error");
          }
          break;
        }
        case Op::Stop: {
          auto e = begin(o.server);
          servers[si]->stop();
          finish(e);
          break;
        }
        case Op::Destroy: {
          for (auto& t : stoppers[si]) t.join();
          {
            vs::Quiet q;
            stoppers[si].clear();
          }
          auto e = begin(o.server);
          servers[si].reset();
          finish(e);
          servers[si] = dap::net::Server::create();
          break;
        }
        case Op::StopThread: {
          auto s = servers[si].get();
          stoppers[si].emplace_back([&, s, o] {
            auto e = begin(o.server);
            s->stop();
            finish(e);
          });
          break;
        }
        case Op::Occupy: {
          vs::Quiet q;
          // As a process of its own would: fails if the port is in use.
          bool busy = false;
          for (auto x : w.socks) busy |= x->bound && !x->conn && x->port == port;
          if (!busy) occupant[o.port] = sim::rawListen(port, 0);
          break;
        }
        case Op::Vacate: {
          vs::Quiet q;
          occupant[o.port].reset();
          break;
        }
        case Op::Client: {
          uint32_t id;
          {
            vs::Quiet q;
            id = nextId++;
          }
          clientThreads.emplace_back([&, o, id, port] {
            uint64_t inv;
            {
              vs::Quiet q;
              inv = ++clock;
            }
            bool good = false;
            std::string fate = "not connected";
            if (o.raw) {
              auto r = sim::rawConnect(port);
              vs::waitUntil("raw connection", [&] { return r.s->st != sim::Sock::Connecting; });
              if (r.s->st == sim::Sock::Connected) {
                fate = "not answered";
                if (o.style == 1) vs::sleep(3000000);
                if (o.style != 2) {
                  r.put(std::string(reinterpret_cast<const char*>(&id), 4));
                  std::string b;
                  while (b.size() < 4) {
                    vs::waitUntil("raw data", [&] {
                      return r.available() > 0 || r.ended() || r.wasReset();
                    });
                    auto x = r.take(4 - b.size());
                    if (x.empty()) break;
                    b += x;
                  }
                  uint32_t back = 0;
                  if (b.size() == 4) {
                    memcpy(&back, b.data(), 4);
                    good = back == (id ^ 0x55555555);
                    if (!good) c.fail("the stream is not connected to its client");
                  }
                }
              }
              r.close();
            } else {
              auto rw = dap::net::connect("localhost", port, o.timeout);
              if (rw) {
                fate = "not answered";
                if (o.style == 1) vs::sleep(3000000);
                if (o.style != 2 && rw->write(&id, 4)) {
                  char b[4];
                  size_t k = 0;
                  while (k < 4) {
                    size_t r = rw->read(b + k, 4 - k);
                    if (r == 0) break;
                    k += r;
                  }
                  if (k == 4) {
                    uint32_t back;
                    memcpy(&back, b, 4);
                    good = back == (id ^ 0x55555555);
                    if (!good) c.fail("the stream is not connected to its client");
                  }
                }
                rw->close();
              }
            }
            vs::Quiet q;
            uint64_t ret = ++clock;
            bool must = false;
            for (auto& g : gens) must |= g->port == port && untouched(*g, inv, ret);
            if (o.style == 2) return;
            if (must) mustServe++;
            if (must && !good) c.fail("a client of a running server was %s", fate.c_str());
            if (good) served++;
            else cut++;
          });
          break;
        }
        case Op::Pause:
          vs::sleep(1000000);
          break;
        case Op::Idle:
          vs::waitIdle();
          checkReported();
          break;
        case Op::Fault: {
          vs::Quiet q;
          w.acceptErrors.push_back(c.pick(std::vector<int>{EMFILE, ENFILE, ENOMEM, ECONNABORTED, EPROTO, EPERM}));
          break;
        }
      }
    }
    vs::waitIdle();
    checkReported();
    for (auto& v : stoppers) {
      for (auto& t : v) t.join();
    }
    for (int i = 0; i < S; i++) {
      auto e = begin(i);
      servers[size_t(i)].reset();
      finish(e);
    }
    {
      vs::Quiet q;
      occupant[0].reset();
      occupant[1].reset();
    }
    for (auto& t : clientThreads) t.join();
    for (auto& t : handlers) t.join();
    held.clear();
    checkReported();
    vs::Quiet q;
    faults = acceptErrors.size();
    if (called != w.accepted) {
      c.fail("%zu connections were accepted, the callback was called %zu times", w.accepted, called);
    }
    if (!w.fds.empty()) c.fail("%zu descriptors are left behind", w.fds.size());
    if (w.addrinfos) c.fail("%zu addresses are leaked", w.addrinfos);
  }, cfg);
  if (ops[0].kind == Op::Start) c.label("starts first");
  c.label("clients", clients);
  c.label("clients served", served);
  c.label("clients that must be served", mustServe);
  c.label("clients cut off", cut);
  c.label("failing starts", failedStarts);
  if (faults) c.label("with failing accept() calls");
  if (starts > 0 && clients > 0) {
    c.nontrivial(h ^ (vs::switches() * 1000003) ^ (vs::preemptions() << 40));
  }
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Options o;
  o.name = "c25_sim";
  o.rule =
      "A case is a history of 2-18 operations on 1-2 servers and 2 ports over "
      "a simulated network: start (good, unresolvable and foreign addresses, numbers that "
      "are no port), "
      "stop, stop from other threads, destroy, clients that echo an id "
      "through the callback, occupied ports, interrupted calls, failing accept() "
      "calls, and a "
      "generated schedule. Non-trivial: at least one start and one client; "
      "distinct: history, switches and preemptions.";
  o.property = property;
  o.quickCases = 300000;
  o.thoroughCases = 20000000;
  o.quickCap = 40;
  return pbt::run(argc, argv, o);
}
