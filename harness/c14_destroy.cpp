// C14: a session can be destroyed at any moment.
#include "sess.h"

namespace {
using namespace h;

// State of one session of a case.
struct Side {
  bool destroyed = false;
  int handlers = 0;   // handler calls that have begun
  int finished = 0;   // and ended
  int errors = 0;
  int closed = 0;
};

void property(Case& c) {
  // 0 raw peer, 1 two sessions over pipes, 2 never started, 3 never bound
  int mode = int(c.weighted({5, 5, 1, 1}));
  size_t n = c.draw(7);
  int handlerYields = int(c.draw(6));
  bool handlerSends = c.flip();
  // When to destroy: 0 after some steps, 1 in a handler, 2 after a handler, 3
  // when idle
  int trigger = int(c.draw(4));
  int count = int(c.draw(4));
  int spin = int(c.draw(60));
  bool endFirst = c.chance(1, 4);
  bool async = c.flip();
  // The peer stops to read after some bytes: writes block until the close.
  size_t stallAt = mode == 0 && c.chance(1, 3) ? 1 + c.draw(200) : 0;
  std::vector<std::string> bodies;
  std::vector<int> kinds;
  std::string desc;
  for (size_t i = 0; i < n; i++) {
    int k = int(c.draw(6));
    kinds.push_back(k);
    Val v = genVal(c, int64_t(i) + 1, false);
    switch (k) {
      case 0: bodies.push_back(toJson(requestJ(int64_t(i) + 1, "v/req1", toJ(v)))); break;
      case 1: bodies.push_back(toJson(requestJ(int64_t(i) + 1, "v/req5", toJ(v)))); break;
      case 2: bodies.push_back(toJson(eventJ(int64_t(i) + 1, "v-ev1", toJ(v)))); break;
      case 3: bodies.push_back(toJson(eventJ(int64_t(i) + 1, "v-none", toJ(v)))); break;
      case 4: bodies.push_back(toJson(responseJ(int64_t(i) + 1, 77, "v/req1", toJ(v)))); break;
      default: bodies.push_back("nonsense");
    }
    desc += pbt::fmt(" %d", k);
  }
  int undelivered = 0;

  pbt::leakCheck(c, [&] {
    vs::run(c, [&] {
      Side a, b;
      auto in = std::make_shared<In>(c);
      auto out = std::make_shared<Out>(c);
      out->stallAt = stallAt;
      auto make = [&](Side& s) {
        auto session = dap::Session::create();
        auto raw = session.get();
        auto enter = [&c, &s] {
          vs::Quiet q;
          if (s.destroyed) c.fail("a handler is called after the session was destroyed");
          s.handlers++;
        };
        auto leave = [&c, &s, raw, handlerYields, handlerSends] {
          for (int i = 0; i < handlerYields; i++) vs::yield();
          if (handlerSends) {
            Val v;
            raw->send(toMsg<dap::VEv3>(v));
          }
          vs::Quiet q;
          if (s.destroyed) c.fail("a handler is running after the session was destroyed");
          s.finished++;
        };
        session->onError([&c, &s](const char*) {
          vs::Quiet q;
          if (s.destroyed) c.fail("the error handler is called after the session was destroyed");
          s.errors++;
        });
        session->registerHandler([enter, leave](const dap::VReq1& r) {
          enter();
          leave();
          return toMsg<dap::VRes1>(fromMsg(r));
        });
        session->registerHandler(
            [enter, leave](const dap::VReq5& r,
                           std::function<void(dap::ResponseOrError<dap::VRes5>)> cb) {
              enter();
              cb(toMsg<dap::VRes5>(fromMsg(r)));
              leave();
            });
        session->registerHandler([enter, leave](const dap::VEv1&) {
          enter();
          leave();
        });
        session->registerSentHandler([&c, &s](const dap::ResponseOrError<dap::VRes1>&) {
          vs::Quiet q;
          if (s.destroyed) c.fail("the sent handler is called after the session was destroyed");
        });
        return session;
      };
      auto onClose = [&c](Side& s) {
        return [&c, &s] {
          vs::yield();
          vs::Quiet q;
          if (s.destroyed) c.fail("the close callback is called after the session was destroyed");
          s.closed++;
        };
      };
      auto wait = [&](Side& s) {
        switch (trigger) {
          case 0:
            break;
          case 1:
            vs::waitUntil("a handler is called", [&] { return s.handlers > count; });
            break;
          case 2:
            vs::waitUntil("a handler has ended", [&] { return s.finished > count; });
            break;
          default:
            vs::waitIdle();
        }
        for (int i = 0; i < spin; i++) vs::yield();
      };
      // Does the trigger always happen?
      int dispatchable = 0;
      for (int k : kinds) dispatchable += k < 3;
      bool canWait = trigger == 0 || trigger == 3 || (dispatchable > count && !stallAt);

      if (mode == 0) {
        auto session = make(a);
        session->bind(in, out, onClose(a));
        std::thread feeder([&] {
          for (auto& x : bodies) {
            auto f = frame(x);
            size_t cut = f.size() / 2;
            in->feed(f.substr(0, cut));
            in->feed(f.substr(cut));
          }
          if (endFirst) in->end();
        });
        if (canWait) {
          wait(a);
        } else if (stallAt) {
          vs::waitIdle();
        }
        session.reset();
        {
          vs::Quiet q;
          a.destroyed = true;
          if (!in->closed) c.fail("the session was destroyed, its reader is open");
          if (!out->closed) c.fail("the session was destroyed, its writer is open");
          if (a.handlers != a.finished) c.fail("a handler is running after destruction");
          if (a.closed > 1) c.fail("the close callback was called %d times", a.closed);
          undelivered = int(n) - a.handlers;
        }
        feeder.join();
        vs::waitIdle();
      } else if (mode == 1) {
        auto s1 = make(a), s2 = make(b);
        auto p1 = dap::pipe(), p2 = dap::pipe();
        s1->bind(p1, p2, onClose(a));
        s2->bind(p2, p1, onClose(b));
        auto send = [&] {
          for (size_t i = 0; i < kinds.size(); i++) {
            Val v;
            v.id = int64_t(i);
            switch (kinds[i]) {
              case 0: s2->send(toMsg<dap::VReq1>(v)); break;
              case 1: s2->send(toMsg<dap::VReq5>(v)); break;
              case 2: s2->send(toMsg<dap::VEv1>(v)); break;
              case 3: s2->send(toMsg<dap::VEv2>(v)); break;
              case 4: s1->send(toMsg<dap::VReq1>(v)); break;
              default: s1->send(toMsg<dap::VEv1>(v));
            }
          }
        };
        send();
        std::thread other;
        if (async) {
          other = std::thread([&] {
            for (int i = 0; i < count * 4; i++) vs::yield();
            s2.reset();
            vs::Quiet q;
            b.destroyed = true;
          });
        }
        if (trigger == 0 || trigger == 3) wait(a);
        s1.reset();
        {
          vs::Quiet q;
          a.destroyed = true;
        }
        if (!async) {
          // The other session observes the close.
          vs::waitIdle();
          {
            vs::Quiet q;
            if (b.closed != 1) c.fail("the peer was destroyed, the close callback was called %d times", b.closed);
          }
          s2.reset();
          vs::Quiet q;
          b.destroyed = true;
        } else {
          other.join();
        }
        vs::waitIdle();
        if (p1->isOpen() || p2->isOpen()) c.fail("a pipe of destroyed sessions is open");
        vs::Quiet q;
        if (a.closed != 1 || b.closed != 1) {
          c.fail("the close callbacks were called %d and %d times", a.closed, b.closed);
        }
        undelivered = int(n) - a.handlers - b.handlers;
      } else if (mode == 2) {
        auto session = make(a);
        session->connect(in, out);
        // Payloads that are pulled, but dropped.
        std::vector<std::function<void()>> payloads;
        for (auto& x : bodies) in->feed(frame(x));
        int pulls = int(c.draw(n + 1));
        for (int i = 0; i < pulls; i++) payloads.push_back(session->getPayload());
        if (c.flip()) payloads.clear();
        session.reset();
        vs::Quiet q;
        a.destroyed = true;
        if (!in->closed || !out->closed) c.fail("the session was destroyed, its streams are open");
        if (a.handlers) c.fail("a payload that was not called was dispatched");
        undelivered = pulls;
      } else {
        auto session = make(a);
        if (c.flip()) session->startProcessingMessages(onClose(a));
        session.reset();
        vs::Quiet q;
        a.destroyed = true;
      }
    });
  });
  static const char* names[] = {"raw peer", "two sessions", "not started", "not bound"};
  c.describe(pbt::fmt("%s, trigger %d/%d +%d steps, kinds%s%s, %llu switches", names[mode], trigger,
                      count, spin, desc.c_str(), handlerSends ? ", handlers send" : "",
                      (unsigned long long)vs::switches()));
  c.label(names[mode]);
  if (stallAt) c.label("peer that stops to read");
  if (undelivered > 0) c.label("with undelivered messages");
  c.label("preemptions", vs::preemptions());
  if (n > 0) {
    c.nontrivial(pbt::hashStr(desc, uint64_t(mode * 1000 + trigger * 100 + spin)) ^
                 vs::switches() << 24 ^ vs::preemptions() << 44);
  }
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Options o;
  o.name = "c14_destroy";
  o.rule =
      "A case is a schedule plus 0-6 messages on their way to a session (raw "
      "peer, or two sessions over pipes that may be destroyed at the same time) "
      "and a moment of destruction (after some steps, in a handler, after a "
      "handler, when idle, or while the peer has stopped reading); callbacks after the destruction, open streams, "
      "deadlocks, races, use of freed memory and leaks are failures. "
      "Non-trivial: at least one message; distinct: messages, moment, switches.";
  o.property = property;
  o.quickCases = 80000;
  o.thoroughCases = 8000000;
  o.quickCap = 45;
  o.workerInit = [](int) { h::warmUp(); };
  return pbt::run(argc, argv, o);
}
