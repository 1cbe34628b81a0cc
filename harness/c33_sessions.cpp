// C33: the sessions of a process are independent of each other.
#include "sess.h"

#include <deque>

namespace {
using namespace h;

enum OpKind {
  kSendEvent, kSendRequest, kAnswer, kRequest, kEvent, kUnknown, kMalformed, kInvalid, kRenew, kOps
};
const char* const opNames[] = {"send event", "send request", "response", "request", "event",
                               "unknown message", "malformed message", "invalid data", "renew"};

struct Op {
  OpKind kind;
  int type;  // 0..1: VReq1, VReq2 or VEv1, VEv2
  Val val, reply;
  bool error = false;
  size_t which = 0;
};

// How a session is set up.
struct Setup {
  bool pull = false;
  bool closeMode = false;
  bool onError = true;
  bool handler[4] = {};  // VReq1, VReq2, VEv1, VEv2
  bool sent = false;     // a response-sent handler of VRes1
};

Val genContent(Case& c, int64_t id) {
  Val v = genVal(c, id);
  if (c.chance(1, 6)) v.text += std::string(c.draw(5000), char('a' + c.draw(26)));
  return v;
}

struct Slot {
  int index = 0;
  std::deque<Setup> setups;  // of the sessions of this slot, one after another
  std::vector<Op> ops;
};

struct Pending {
  int64_t seq;
  int type;
  std::shared_ptr<dap::future<dap::ResponseOrError<dap::VRes1>>> f1;
  std::shared_ptr<dap::future<dap::ResponseOrError<dap::VRes2>>> f2;
};

// One session and its raw peer.
struct Live {
  Case& c;
  Slot& slot;
  Setup setup;
  std::string name;
  std::shared_ptr<In> in;
  std::shared_ptr<Out> out;
  std::unique_ptr<dap::Session> session;
  FrameParser frames;
  int64_t nextSeq = 1;
  std::deque<Pending> pending;
  // What was observed.
  int errors = 0, calls = 0, sents = 0, closed = 0;
  bool destroyed = false;
  Val lastCall, lastSent, reply;
  int lastType = -1;
  bool lastSentError = false;
  bool error = false;  // of the reply
  std::function<void()> inHandler;

  Live(Case& c, Slot& slot, Setup setup, int generation)
      : c(c), slot(slot), setup(setup), name(pbt::fmt("session %d.%d", slot.index, generation)) {
    in = std::make_shared<In>(c);
    out = std::make_shared<Out>(c);
    session = dap::Session::create();
    if (setup.onError) {
      session->onError([this](const char* message) {
        alive("the error handler");
        vs::yield();
        vs::Quiet q;
        errors++;
        // The unknown commands of a session have its number.
        auto p = strstr(message, "v/of");
        if (p && atoi(p + 4) != this->slot.index) {
          this->c.fail("%s reports an error of another session: %s", name.c_str(), message);
        }
      });
    }
    if (setup.closeMode) session->setOnInvalidData(dap::kClose);
    if (setup.handler[0]) {
      session->registerHandler([this](const dap::VReq1& r) -> dap::ResponseOrError<dap::VRes1> {
        called(0, fromMsg(r));
        return answer<dap::VRes1>();
      });
    }
    if (setup.handler[1]) {
      session->registerHandler([this](const dap::VReq2& r) -> dap::ResponseOrError<dap::VRes2> {
        called(1, fromMsg(r));
        return answer<dap::VRes2>();
      });
    }
    if (setup.handler[2]) {
      session->registerHandler([this](const dap::VEv1& e) { called(2, fromMsg(e)); });
    }
    if (setup.handler[3]) {
      session->registerHandler([this](const dap::VEv2& e) { called(3, fromMsg(e)); });
    }
    if (setup.sent) {
      session->registerSentHandler([this](const dap::ResponseOrError<dap::VRes1>& r) {
        alive("the response-sent handler");
        vs::Quiet q;
        sents++;
        lastSentError = bool(r.error);
        lastSent = fromMsg(r.response);
      });
    }
    if (setup.pull) {
      session->connect(in, out);
    } else {
      session->bind(in, out, [this] {
        alive("the close callback");
        vs::Quiet q;
        closed++;
      });
    }
  }

  void alive(const char* what) {
    vs::Quiet q;
    if (destroyed) c.fail("%s of %s is called after it was destroyed", what, name.c_str());
  }
  template <typename R>
  dap::ResponseOrError<R> answer() {
    vs::Quiet q;
    if (error) return dap::Error(reply.text + "!");
    return toMsg<R>(reply);
  }
  void called(int type, const Val& v) {
    alive("a handler");
    std::function<void()> f;
    {
      vs::Quiet q;
      f = inHandler;
    }
    if (f) f();
    vs::Quiet q;
    calls++;
    lastType = type;
    lastCall = v;
  }

  // The next message that the session sends.
  void expectOut(const J& want) {
    vs::waitUntil("a message is sent", [&] {
      frames.poll(c, out->data);
      return frames.messages.size() >= size_t(nextSeq);
    });
    vs::Quiet q;
    auto& m = frames.messages[size_t(nextSeq) - 1];
    if (!same(m, want)) {
      c.fail("%s sends %s instead of %s", name.c_str(),
             pbt::esc(frames.bodies[size_t(nextSeq) - 1], 300).c_str(),
             pbt::esc(toJson(want), 300).c_str());
    }
    nextSeq++;
  }
  void feed(const std::string& s) {
    in->feed(s);
    if (setup.pull) {
      if (auto p = session->getPayload()) p();
    }
  }
  void expectCall(int type, const Val& v, int callsBefore) {
    vs::waitUntil("the handler is called", [&] { return calls > callsBefore; });
    vs::Quiet q;
    if (lastType != type || lastCall != v) {
      c.fail("a handler of %s gets %s instead of %s", name.c_str(), lastCall.str().c_str(),
             v.str().c_str());
    }
  }
  void expectError(int errorsBefore) {
    if (setup.onError) {
      vs::waitUntil("the error handler is called", [&] { return errors > errorsBefore; });
    }
    if (!setup.pull) {
      // The message has been processed.
      vs::waitUntil("the session reads on", [&] { return in->reading && in->pos == in->data.size(); });
    }
  }

  void run(Op& o) {
    static const char* reqNames[] = {"v/req1", "v/req2"};
    static const char* evNames[] = {"v-ev1", "v-ev2"};
    int errors0, calls0, sents0;
    {
      vs::Quiet q;
      errors0 = errors;
      calls0 = calls;
      sents0 = sents;
      reply = o.reply;
      error = o.error;
    }
    bool errorOk = false;
    switch (o.kind) {
      case kSendEvent:
        if (o.type) session->send(toMsg<dap::VEv2>(o.val)); else session->send(toMsg<dap::VEv1>(o.val));
        expectOut(eventJ(nextSeq, evNames[o.type], toJ(o.val)));
        break;
      case kSendRequest: {
        Pending p;
        p.seq = nextSeq;
        p.type = o.type;
        if (o.type) {
          p.f2 = std::make_shared<decltype(p.f2)::element_type>(session->send(toMsg<dap::VReq2>(o.val)));
        } else {
          p.f1 = std::make_shared<decltype(p.f1)::element_type>(session->send(toMsg<dap::VReq1>(o.val)));
        }
        expectOut(requestJ(nextSeq, reqNames[o.type], toJ(o.val)));
        pending.push_back(std::move(p));
        break;
      }
      case kAnswer: {
        if (pending.empty()) {
          // To a request of another session, perhaps.
          errorOk = true;
          feed(frame(toJson(responseJ(1, int64_t(o.which), "v/req1", toJ(o.reply)))));
          expectError(errors0);
          break;
        }
        size_t k = o.which % pending.size();
        Pending p = std::move(pending[k]);
        pending.erase(pending.begin() + long(k));
        feed(frame(toJson(o.error ? failureJ(1, p.seq, reqNames[p.type], o.reply.text + "!")
                                  : responseJ(1, p.seq, reqNames[p.type], toJ(o.reply)))));
        std::string error;
        Val got;
        if (p.type) {
          auto r = p.f2->get();
          error = r.error.message;
          got = fromMsg(r.response);
        } else {
          auto r = p.f1->get();
          error = r.error.message;
          got = fromMsg(r.response);
        }
        vs::Quiet q;
        if (o.error ? error != o.reply.text + "!" : (!error.empty() || got != o.reply)) {
          c.fail("a request of %s gets another result than the peer sent", name.c_str());
        }
        break;
      }
      case kRequest: {
        bool known = setup.handler[o.type];
        feed(frame(toJson(requestJ(int64_t(o.which) + 1, reqNames[o.type], toJ(o.val)))));
        if (!known) {
          errorOk = true;
          expectError(errors0);
          break;
        }
        expectCall(o.type, o.val, calls0);
        calls0++;
        expectOut(o.error ? failureJ(nextSeq, int64_t(o.which) + 1, reqNames[o.type], o.reply.text + "!")
                          : responseJ(nextSeq, int64_t(o.which) + 1, reqNames[o.type], toJ(o.reply)));
        if (setup.sent && o.type == 0) {
          vs::waitUntil("the response-sent handler is called", [&] { return sents > sents0; });
          sents0++;
          vs::Quiet q;
          if (lastSentError != o.error || (!o.error && lastSent != o.reply)) {
            c.fail("the response-sent handler of %s gets another result", name.c_str());
          }
        }
        break;
      }
      case kEvent:
        feed(frame(toJson(eventJ(1, evNames[o.type], toJ(o.val)))));
        if (setup.handler[2 + o.type]) {
          expectCall(2 + o.type, o.val, calls0);
          calls0++;
        } else {
          errorOk = true;
          expectError(errors0);
        }
        break;
      case kUnknown:
        errorOk = true;
        feed(frame(toJson(requestJ(1, "v/of" + std::to_string(slot.index), toJ(o.val)))));
        expectError(errors0);
        break;
      case kMalformed:
        errorOk = true;
        feed(frame(o.which % 2 ? "{" : "{\"seq\":1,\"type\":\"x\"}"));
        expectError(errors0);
        break;
      case kInvalid:
        if (setup.closeMode) {
          // Ends this session only.
          in->feed(std::string(64, char(o.which % 2 ? 88 : 10)));
          if (setup.pull) {
            session->getPayload();
          } else {
            vs::waitUntil("the close callback is called", [&] { return closed > 0; });
          }
          vs::Quiet q;
          if (!in->closed) c.fail("%s does not close its reader on invalid data", name.c_str());
        } else {
          // Skipped with the next message.
          in->feed(o.which % 2 ? "Conte" : "garbage\r\n\r\n");
        }
        break;
      default:
        break;
    }
    vs::Quiet q;
    if (errors != errors0 && !errorOk) c.fail("%s reports an error for valid traffic", name.c_str());
    if (errorOk && errors > errors0 + 2) c.fail("%s reports %d errors for one", name.c_str(), errors - errors0);
    if (calls != calls0) c.fail("%s calls a handler too often", name.c_str());
    if (sents != sents0) c.fail("%s calls a response-sent handler too often", name.c_str());
    if (!in->closed && closed) c.fail("the close callback of %s is called, but it is open", name.c_str());
    if (in->closed != (o.kind == kInvalid && setup.closeMode)) c.fail("%s closes its reader", name.c_str());
    if (out->closed) c.fail("%s closes its writer", name.c_str());
  }

  void end() {
    session.reset();
    vs::Quiet q;
    destroyed = true;
    if (!in->closed || !out->closed) c.fail("%s does not close its streams when destroyed", name.c_str());
    if (!setup.pull && closed != 1) c.fail("the close callback of %s is called %d times", name.c_str(), closed);
    frames.poll(c, out->data);
    if (frames.messages.size() != size_t(nextSeq) - 1 || frames.pos != out->data.size()) {
      c.fail("%s sends more than it was told to", name.c_str());
    }
  }
};

void property(Case& c) {
  size_t n = 2 + c.draw(2);
  std::vector<Slot> slots(n);
  std::string desc;
  uint64_t hash = 7;
  size_t total = 0, renewals = 0;
  for (size_t i = 0; i < n; i++) {
    auto& s = slots[i];
    s.index = int(i);
    size_t k = 1 + c.draw(6);
    auto setup = [&] {
      Setup u;
      u.pull = c.chance(1, 3);
      u.closeMode = c.chance(1, 3);
      u.onError = !c.chance(1, 5);
      for (auto& x : u.handler) x = !c.chance(1, 3);
      u.sent = c.flip();
      s.setups.push_back(u);
    };
    setup();
    desc += pbt::fmt("session %zu:", i);
    for (size_t j = 0; j < k; j++) {
      Op o;
      o.kind = OpKind(c.weighted({3, 3, 3, 4, 3, 1, 1, 1, 2}));
      o.type = int(c.draw(2));
      o.val = genContent(c, int64_t(i * 1000 + j));
      if (o.kind == kAnswer || o.kind == kRequest) {
        o.reply = genContent(c, int64_t(i * 1000 + j + 500));
        o.error = c.chance(1, 4);
      }
      o.which = c.draw(4);
      if (o.kind == kRenew || (o.kind == kInvalid && s.setups.back().closeMode)) {
        setup();
        renewals++;
      }
      hash = hash * 31 + uint64_t(o.kind * 16 + o.type + 2 * s.setups.back().pull);
      desc += std::string(" ") + opNames[o.kind] + ",";
      s.ops.push_back(o);
      total++;
    }
    desc += " | ";
  }
  // At its end, the first session is kept in a call until the others are done.
  int hold = int(c.weighted({3, 1, 1}));
  size_t done = 0;
  vs::run(c, [&] {
    std::vector<std::thread> threads;
    for (auto& s : slots) {
      threads.emplace_back([&] {
        int generation = 0;
        auto create = [&] {
          auto l = std::make_unique<Live>(c, s, s.setups.front(), generation++);
          s.setups.pop_front();
          return l;
        };
        auto live = create();
        for (auto& o : s.ops) {
          bool last = o.kind == kRenew;
          if (!last) {
            live->run(o);
            last = o.kind == kInvalid && live->setup.closeMode;
          }
          if (last) {
            live->end();
            live = create();
          }
        }
        if (s.index == 0 && hold) {
          auto others = [&] {
            vs::waitUntil("the other sessions are done", [&] { return done == n - 1; });
          };
          if (hold == 1) {  // a peer that does not read
            {
              vs::Quiet q;
              live->out->stallAt = live->out->data.size() + 1;
            }
            std::thread sender([&] {
              live->session->send(toMsg<dap::VEv1>(Val()));
            });
            others();
            live->out->close();
            sender.join();
            {
              vs::Quiet q;
              live->out->data.resize(live->frames.pos);
            }
            live->end();
            return;
          }
          Op o;  // a handler that does not return
          o.kind = kRequest;
          o.type = 0;
          {
            vs::Quiet q;
            live->inHandler = others;
          }
          live->run(o);
        }
        live->end();
        vs::Quiet q;
        if (s.index != 0) done++;
      });
    }
    for (auto& t : threads) t.join();
  });
  c.describe(desc + pbt::fmt("%llu switches", (unsigned long long)vs::switches()));
  c.label("operations", total);
  if (hold == 1) c.label("one session is blocked in a send");
  if (hold == 2) c.label("one session is blocked in a handler");
  if (renewals) c.label("sessions replaced while others run");
  c.label("preemptions", vs::preemptions());
  if (total > 2) c.nontrivial(hash ^ vs::switches() << 20 ^ vs::preemptions() << 40);
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Options o;
  o.name = "c33_sessions";
  o.rule =
      "A case is a schedule plus 2-3 threads, each with a session of its own "
      "(threaded or pulled, either invalid-data mode, with or without an error "
      "handler, any subset of the handlers) and a program of 1-6 operations: send "
      "events and requests, receive responses, requests, events, unknown, "
      "malformed and invalid data, destroy the session and make a new one; one session may stay blocked in a "
      "send or a handler until the others are done. Every "
      "message, number, result, handler call and error is compared with the model "
      "of a session that is alone. Non-trivial: three or more operations; "
      "distinct: programs, switches, preemptions.";
  o.property = property;
  o.quickCases = 30000;
  o.thoroughCases = 6000000;
  o.quickCap = 40;
  o.workerInit = [](int) { h::warmUp(); };
  return pbt::run(argc, argv, o);
}
