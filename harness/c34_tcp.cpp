// C34: sessions over TCP connections, end to end, over a simulated network and
// under generated schedules.
#include "sess.h"
#include "simnet.h"

#include "dap/network.h"

#include <algorithm>
#include <mutex>

namespace {
using namespace h;

// The reply of a server to `v`.
Val replyTo(const Val& v) {
  Val r = v;
  r.text = "re:" + v.text;
  r.id = v.id ^ 0x5a5a;
  r.hasExtra = !v.hasExtra;
  r.extra = 1;
  r.list.push_back(std::to_string(v.text.size()));
  return r;
}

struct Op {
  enum Kind { Event, Request, Ask } kind = Event;
  Val val;
  bool error = false;      // Request: the server answers with an error
  bool wait = false;       // for the response, before the next operation
  std::vector<Val> back;   // Ask: the events that the server sends before it answers
};

// How a client ends.
enum Ending { Done, Destroy, CloseStream, ServerDestroys, ServerCloses, kEndings };
const char* const endingNames[] = {"when all is done", "client destroyed at once",
                                   "client closes its stream", "server's session destroyed",
                                   "server closes its stream"};

struct Plan {
  uint32_t timeout = 0;
  bool pull = false;
  int ending = 0;
  std::vector<std::vector<Op>> threads;  // programs of 1-2 threads
};

struct Conn;

// The server's end of a connection.
struct ServerEnd {
  std::shared_ptr<dap::ReaderWriter> rw;
  std::unique_ptr<dap::Session> session;
  Conn* of = nullptr;  // once the client has said who it is
  int closed = 0, errors = 0, running = 0;
  bool ready = false;  // the session is bound
  bool gone = false;   // the session was destroyed
  std::string error;
};

struct Pending {
  const Op* op;
  std::shared_ptr<dap::future<dap::ResponseOrError<dap::VRes1>>> f;
  std::shared_ptr<dap::future<dap::ResponseOrError<dap::VRes2>>> ask;
};

// A client and its connection.
struct Conn {
  size_t index = 0;
  Plan* plan = nullptr;
  ServerEnd* server = nullptr;
  // By the thread of the client.
  std::vector<std::vector<Val>> sentEvents, gotEvents;   // client to server
  std::vector<std::vector<Val>> sentBack, gotBack;       // server to client
  std::vector<std::vector<Val>> calls;                   // requests that the server got
  int closed = 0, errors = 0;
  bool gone = false;
  size_t answered = 0, failed = 0;
};

// Identifies an operation: client, thread, index.
int64_t idOf(size_t client, size_t thread, size_t op) {
  return int64_t(client * 1000000 + thread * 10000 + op);
}

void property(Case& c) {
  size_t n = 1 + c.weighted({3, 2, 1});
  unsigned eintr = unsigned(c.pick(std::vector<int>{0, 0, 1, 6}));
  unsigned partial = unsigned(c.pick(std::vector<int>{0, 4, 10}));
  size_t capacity = c.pick(std::vector<size_t>{65536, 65536, 700, 100});
  int base = c.pick(std::vector<int>{500, 1021});
  bool immediate = c.flip();
  bool stopEarly = c.chance(1, 4);  // the server stops once all have connected
  std::vector<Plan> plans(n);
  std::string desc;
  uint64_t hash = eintr * 31 + partial * 7 + capacity;
  size_t total = 0, bytes = 0;
  for (size_t i = 0; i < n; i++) {
    auto& p = plans[i];
    p.timeout = c.pick(std::vector<uint32_t>{0, 1000, 100000});
    p.pull = c.chance(1, 4);
    p.ending = int(c.weighted({4, 2, 2, 2, 2}));
    p.threads.resize(1 + (c.chance(1, 3) ? 1 : 0));
    desc += pbt::fmt("client %zu%s:", i, p.pull ? " (pulls)" : "");
    for (size_t t = 0; t < p.threads.size(); t++) {
      size_t k = c.draw(5);
      for (size_t j = 0; j < k; j++) {
        Op o;
        o.kind = Op::Kind(c.weighted({3, 3, 2}));
        auto gen = [&](int64_t id) {
          Val v = genVal(c, id, false);
          if (c.chance(1, 6)) v.text += std::string(c.draw(capacity < 1000 ? 600 : 3000), char('a' + c.draw(26)));
          bytes += v.text.size();
          return v;
        };
        o.val = gen(idOf(i, t, j));
        o.error = c.chance(1, 5);
        o.wait = c.flip();
        if (o.kind == Op::Ask) {
          size_t e = c.draw(3);
          for (size_t x = 0; x < e; x++) o.back.push_back(gen(idOf(i, t, j)));
        }
        hash = hash * 1000003 + uint64_t(o.kind) * 4 + o.wait * 2 + o.error;
        desc += o.kind == Op::Event ? " event" : o.kind == Op::Request ? " request" : pbt::fmt(" ask(%zu)", o.back.size());
        if (o.wait && o.kind) desc += "-wait";
        p.threads[t].push_back(o);
        total++;
      }
      desc += t + 1 < p.threads.size() ? " ||" : "";
    }
    hash = hash * 31 + uint64_t(p.ending * 2 + p.pull);
    desc += pbt::fmt(" ends: %s; ", endingNames[p.ending]);
  }
  c.describe(desc);
  size_t lastEvents = 0, resets = 0, partials = 0, eintrs = 0;
  vs::Config cfg;
  cfg.earlyTimers = false;
  vs::run(c, [&] {
    sim::Scope scope(c);
    auto& w = scope.world;
    w.base = base;
    w.eintr = eintr;
    w.partial = partial;
    w.capacity = capacity;
    w.immediate = immediate;
    const uint16_t port = 7300;
    std::vector<std::unique_ptr<ServerEnd>> ends;
    std::mutex mutex;  // of the sessions of the server
    std::vector<std::unique_ptr<Conn>> conns;
    for (size_t i = 0; i < n; i++) {
      conns.emplace_back(new Conn);
      auto& k = *conns.back();
      k.index = i;
      k.plan = &plans[i];
      size_t t = k.plan->threads.size();
      k.sentEvents.resize(t);
      k.gotEvents.resize(t);
      k.sentBack.resize(t);
      k.gotBack.resize(t);
      k.calls.resize(t);
    }
    // What a message that arrived at the server is about.
    auto locate = [&](ServerEnd* e, int64_t id, size_t* thread) -> const Op* {
      size_t client = size_t(id / 1000000), t = size_t(id / 10000 % 100), j = size_t(id % 10000);
      if (!e->of) c.fail("a message arrives before the first one");
      if (client != e->of->index) c.fail("a message arrives at the session of another client");
      if (t >= e->of->plan->threads.size() || j >= e->of->plan->threads[t].size()) {
        c.fail("a message arrives that was not sent");
      }
      *thread = t;
      return &e->of->plan->threads[t][j];
    };
    auto server = dap::net::Server::create();
    auto onConnect = [&](const std::shared_ptr<dap::ReaderWriter>& rw) {
      ServerEnd* e;
      {
        vs::Quiet q;
        ends.emplace_back(new ServerEnd);
        e = ends.back().get();
        e->rw = rw;
      }
      auto session = dap::Session::create();
      auto s = session.get();
      auto use = [&c, e](const char* what) {
        vs::Quiet q;
        if (e->gone) c.fail("%s of the server's session is called after it was destroyed", what);
      };
      s->onError([&, e, use](const char* m) {
        use("the error handler");
        vs::Quiet q;
        e->errors++;
        e->error = m;
      });
      s->registerHandler([&, e, use](const dap::VReq4& r) {
        use("a handler");
        vs::Quiet q;
        if (r.id < 0 || size_t(r.id) >= n || e->of || conns[size_t(r.id)]->server) {
          c.fail("two connections have the same client");
        }
        e->of = conns[size_t(r.id)].get();
        e->of->server = e;
        return dap::VRes4();
      });
      s->registerHandler([&, e, use](const dap::VEv1& ev) {
        use("a handler");
        vs::Quiet q;
        size_t t;
        locate(e, ev.id, &t);
        e->of->gotEvents[t].push_back(fromMsg(ev));
      });
      s->registerHandler([&, e, use](const dap::VReq1& r) -> dap::ResponseOrError<dap::VRes1> {
        use("a handler");
        vs::Quiet q;
        size_t t;
        auto o = locate(e, r.id, &t);
        auto v = fromMsg(r);
        if (o->kind != Op::Request || v != o->val) c.fail("a request arrives that was not sent");
        e->of->calls[t].push_back(v);
        if (o->error) return dap::Error("no " + o->val.text);
        return toMsg<dap::VRes1>(replyTo(v));
      });
      s->registerHandler([&, e, s, use](const dap::VReq2& r) -> dap::ResponseOrError<dap::VRes2> {
        use("a handler");
        size_t t;
        const Op* o;
        Val v = fromMsg(r);
        {
          vs::Quiet q;
          e->running++;
          o = locate(e, r.id, &t);
          if (o->kind != Op::Ask || v != o->val) c.fail("a request arrives that was not sent");
          e->of->calls[t].push_back(v);
        }
        for (auto& b : o->back) {
          {
            vs::Quiet q;
            e->of->sentBack[t].push_back(b);
          }
          s->send(toMsg<dap::VEv2>(b));
        }
        Val question = replyTo(v);
        auto f = s->send(toMsg<dap::VReq3>(question));
        while (f.wait_for(std::chrono::milliseconds(1)) != dap::future_status::ready) {
          vs::Quiet q;
          if (e->closed) {
            e->running--;
            return dap::Error("the connection has ended");
          }
        }
        auto a = f.get();
        vs::Quiet q;
        e->running--;
        if (a.error) return a.error;
        if (fromMsg(a.response) != replyTo(question)) c.fail("the server gets another response than the client sent");
        return toMsg<dap::VRes2>(replyTo(fromMsg(a.response)));
      });
      s->bind(rw, [&, e, use] {
        use("the close callback");
        vs::Quiet q;
        e->closed++;
      });
      std::lock_guard<std::mutex> lock(mutex);
      vs::Quiet q;
      e->session = std::move(session);
      e->ready = true;
    };
    auto destroyServerEnd = [&](ServerEnd* e) {
      vs::waitUntil("the server's session is bound", [&] { return e->ready; });
      std::unique_ptr<dap::Session> s;
      {
        std::lock_guard<std::mutex> lock(mutex);
        vs::Quiet q;
        s = std::move(e->session);
      }
      s.reset();
      vs::Quiet q;
      e->gone = true;
    };
    if (!server->start(port, onConnect, [&](const char* m) { c.fail("the server fails: %s", m); })) {
      c.fail("the server does not start");
    }

    size_t connected = 0, finished = 0;
    auto client = [&](Conn& k) {
      auto& plan = *k.plan;
      auto rw = dap::net::connect("localhost", port, plan.timeout);
      if (!rw) c.fail("a client cannot connect to a running server");
      auto session = dap::Session::create();
      auto s = session.get();
      auto use = [&](const char* what) {
        vs::Quiet q;
        if (k.gone) c.fail("%s of the client's session is called after it was destroyed", what);
      };
      s->onError([&](const char*) {
        use("the error handler");
        vs::Quiet q;
        k.errors++;
      });
      s->registerHandler([&](const dap::VReq3& r) {
        use("a handler");
        return toMsg<dap::VRes3>(replyTo(fromMsg(r)));
      });
      s->registerHandler([&](const dap::VEv2& ev) {
        use("a handler");
        vs::Quiet q;
        size_t t = size_t(ev.id / 10000 % 100);
        if (size_t(ev.id / 1000000) != k.index || t >= plan.threads.size()) {
          c.fail("an event arrives at another client");
        }
        k.gotBack[t].push_back(fromMsg(ev));
      });
      std::thread pump;
      if (plan.pull) {
        s->connect(rw);
        pump = std::thread([&, s] {
          while (auto p = s->getPayload()) p();
          vs::Quiet q;
          k.closed++;
        });
      } else {
        s->bind(rw, [&] {
          use("the close callback");
          vs::Quiet q;
          k.closed++;
        });
      }
      dap::VReq4 hello;
      hello.id = int64_t(k.index);
      if (s->send(hello).get().error) c.fail("the first request of a client fails");
      {
        vs::Quiet q;
        connected++;
      }
      if (stopEarly) vs::waitUntil("all clients connect", [&] { return connected == n; });

      std::vector<std::vector<Pending>> pending(plan.threads.size());
      // Checks a result. With `lost`, the connection has ended: there may be
      // none, or an error.
      auto check = [&](Pending& p, bool lost) {
        std::string error;
        bool isError;
        Val v;
        auto now = std::chrono::seconds(0);
        if (lost && (p.f ? p.f->wait_for(now) : p.ask->wait_for(now)) != dap::future_status::ready) {
          k.failed++;
          return;
        }
        if (p.f) {
          auto r = p.f->get();
          isError = bool(r.error);
          error = r.error.message;
          v = fromMsg(r.response);
        } else {
          auto r = p.ask->get();
          isError = bool(r.error);
          error = r.error.message;
          v = fromMsg(r.response);
        }
        vs::Quiet q;
        bool right;
        if (p.f) {
          right = p.op->error ? isError && error == "no " + p.op->val.text : !isError && v == replyTo(p.op->val);
        } else {
          right = !isError && v == replyTo(replyTo(replyTo(p.op->val)));
        }
        if (right) {
          k.answered++;
        } else if (lost && isError) {
          k.failed++;
        } else {
          c.fail("a request gets another result than the server gave: %s",
                 isError ? pbt::esc(error, 200).c_str() : v.str().c_str());
        }
      };
      auto program = [&](size_t t) {
        for (auto& o : plan.threads[t]) {
          Pending p;
          p.op = &o;
          switch (o.kind) {
            case Op::Event: {
              {
                vs::Quiet q;
                k.sentEvents[t].push_back(o.val);
              }
              s->send(toMsg<dap::VEv1>(o.val));
              continue;
            }
            case Op::Request:
              p.f = std::make_shared<decltype(p.f)::element_type>(s->send(toMsg<dap::VReq1>(o.val)));
              break;
            case Op::Ask:
              p.ask = std::make_shared<decltype(p.ask)::element_type>(s->send(toMsg<dap::VReq2>(o.val)));
              break;
          }
          if (o.wait) {
            check(p, false);
          } else {
            vs::Quiet q;
            pending[t].push_back(std::move(p));
          }
        }
      };
      if (plan.threads.size() > 1) {
        std::thread other([&] { program(1); });
        program(0);
        other.join();
      } else {
        program(0);
      }
      auto checkAll = [&](bool lost) {
        for (auto& v : pending) {
          for (auto& p : v) check(p, lost);
          vs::Quiet q;
          v.clear();
        }
      };
      auto arrived = [&] {
        return k.gotEvents == k.sentEvents && k.gotBack == k.sentBack;
      };
      bool intact = plan.ending == Done;
      if (intact) {
        checkAll(false);
        vs::waitUntil("all events arrive", arrived);
        vs::Quiet q;
        if (k.errors) c.fail("a client reports an error for valid traffic");
        if (k.server->errors) c.fail("the server reports an error for valid traffic: %s", k.server->error.c_str());
        if (k.closed) c.fail("a client reports that the connection closed, but it is open");
        if (k.server->closed) c.fail("the server reports that a connection closed, but it is open");
      }
      if (plan.ending == ServerDestroys) {
        destroyServerEnd(k.server);
      }
      if (plan.ending == ServerCloses) {
        vs::waitUntil("the server's session is bound", [&] { return k.server->ready; });
        std::shared_ptr<dap::ReaderWriter> stream;
        {
          std::lock_guard<std::mutex> lock(mutex);
          stream = k.server->rw;
        }
        stream->close();
      }
      if (plan.ending == CloseStream || (plan.pull && plan.ending <= Destroy)) rw->close();
      if (plan.ending >= CloseStream || plan.pull) {
        // Not by the destructor, but by the end of the connection.
        vs::waitUntil("the client learns that the connection ended", [&] { return k.closed > 0; });
        if (plan.pull) pump.join();
      }
      if (plan.ending == CloseStream || plan.ending >= ServerDestroys) {
        bool all = !plan.pull;
        if (all) checkAll(true);
      }
      session.reset();
      {
        vs::Quiet q;
        k.gone = true;
        if (k.closed != 1) c.fail("the close callback of a client is called %d times", k.closed);
      }
      checkAll(true);
      rw.reset();
      // The server learns of the end as well.
      vs::waitUntil("the server learns that the connection ended", [&] { return k.server->closed > 0; });
      bool settled = plan.ending <= CloseStream;  // the client has read all that was sent to it
      for (auto& t : plan.threads) {
        for (auto& o : t) settled &= o.kind == Op::Event || o.wait || intact;
      }
      if (settled) {
        vs::waitUntil("the server gets what was sent before the end", [&] { return k.gotEvents == k.sentEvents; });
      }
      destroyServerEnd(k.server);
      vs::Quiet q;
      if (settled) lastEvents++;
      k.server->rw.reset();
      if (k.server->closed != 1) c.fail("the close callback of the server is called %d times", k.server->closed);
      for (size_t t = 0; t < plan.threads.size(); t++) {
        auto prefix = [](const std::vector<Val>& a, const std::vector<Val>& b) {
          return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin());
        };
        if (!prefix(k.gotEvents[t], k.sentEvents[t])) c.fail("the server gets other events than were sent");
        if (!prefix(k.gotBack[t], k.sentBack[t])) c.fail("a client gets other events than were sent");
        size_t requests = 0, calls = 0;
        for (auto& o : plan.threads[t]) {
          if (o.kind == Op::Event) continue;
          requests++;
          if (calls < k.calls[t].size() && k.calls[t][calls] == o.val) calls++;
        }
        if (calls != k.calls[t].size()) c.fail("requests arrive in another order or more than once");
        if (intact && calls != requests) c.fail("a request does not arrive");
      }
      if (intact && !arrived()) c.fail("an event arrives more than once");
      finished++;
    };
    std::vector<std::thread> threads;
    for (auto& k : conns) {
      auto p = k.get();
      threads.emplace_back([&, p] { client(*p); });
    }
    if (stopEarly) {
      vs::waitUntil("all clients connect", [&] { return connected == n; });
      server->stop();
      if (immediate) server.reset();
    }
    for (auto& t : threads) t.join();
    server.reset();
    vs::Quiet q;
    if (ends.size() != n) c.fail("%zu connections for %zu clients", ends.size(), n);
    ends.clear();
    if (!w.fds.empty()) c.fail("%zu descriptors are left behind", w.fds.size());
    resets = w.resets;
    partials = w.partials;
    eintrs = w.eintrs;
  }, cfg);
  c.label("operations", total);
  c.label("preemptions", vs::preemptions());
  for (auto& p : plans) c.label(endingNames[p.ending]);
  if (stopEarly) c.label("the server stops while its connections are in use");
  c.label("connections whose last events must arrive", lastEvents);
  if (resets) c.label("with connection resets");
  if (partials) c.label("with partial transfers");
  if (eintrs) c.label("with interrupted calls");
  if (total > 0) c.nontrivial(hash ^ vs::switches() << 20 ^ vs::preemptions() << 40);
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Options o;
  o.name = "c34_tcp";
  o.rule =
      "A case is a schedule plus 1-3 clients that connect to one server over a "
      "simulated network (partial transfers, interrupted calls, small buffers), "
      "with a session at both ends of every connection: 1-2 threads per client "
      "send 0-4 events, requests (answered with a response or an error), and "
      "requests whose handler sends events and a request back; then the "
      "connection ends in one of five ways, and the server may stop before. "
      "Non-trivial: at least one operation; distinct: programs, faults, switches, "
      "preemptions.";
  o.property = property;
  o.quickCases = 30000;
  o.thoroughCases = 6000000;
  o.quickCap = 40;
  o.workerInit = [](int) { h::warmUp(); };
  return pbt::run(argc, argv, o);
}
