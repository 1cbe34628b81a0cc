// C31: handlers can use the session that calls them.
#include "sess.h"

#include <deque>

namespace {
using namespace h;

// What a handler does with its session.
struct Act {
  enum Kind {
    kEvent,      // sends an event
    kAsk,        // sends a request and waits for its answer
    kAskFor,     // the same, with a timed wait
    kPost,       // sends a request; its answer is looked at in the end
    kChain,      // sends a request, whose response handler does `then`
    kRegister,   // registers the next event handler, then tells the peer
    kComplete,   // completes a request that was received earlier
    kSetError,   // replaces the error handler
  } kind;
  Val val;
  bool fail = false;        // the peer answers with an error
  Val answer;
  std::string message;
  std::vector<Act> then;    // kChain
};

const char* const actNames[] = {"event", "ask", "askfor", "post", "chain", "register", "complete", "onError"};

struct In1 {
  // 0 VReq1 returns a response, 1 VReq5 by callback in the call, 2 VReq5 by
  // callback later, 3 VEv1, 4 VReq3 returns an error
  int kind;
  int64_t seq;
  Val val;
  Val result;
  std::vector<Act> acts;     // of the handler
  std::vector<Act> sentActs; // of the sent handler
  int dispatched = 0, sent = 0, finished = 0, answered = 0;
};

int64_t nextId;

Act genAct(Case& c, int depth, bool mayWait, std::string* desc) {
  Act a;
  do {
    static const std::vector<Act::Kind> kinds = {
        Act::kEvent, Act::kAsk, Act::kAsk, Act::kPost, Act::kChain, Act::kRegister,
        Act::kComplete, Act::kSetError, Act::kAskFor};
    a.kind = c.pick(kinds);
    // Completing a request calls its sent handler, which may wait.
  } while ((!mayWait && (a.kind == Act::kAsk || a.kind == Act::kAskFor || a.kind == Act::kComplete)) ||
           (depth > 1 && a.kind == Act::kChain));
  int64_t id = nextId++;
  a.val = genVal(c, id, false);
  a.answer = genVal(c, id, false);
  a.fail = c.chance(1, 4);
  a.message = pbt::fmt("no %lld", (long long)id);
  *desc += std::string(" ") + actNames[a.kind];
  if (a.kind == Act::kChain) {
    *desc += "(";
    for (size_t n = c.draw(3); n > 0; n--) a.then.push_back(genAct(c, depth + 1, false, desc));
    *desc += " )";
  }
  return a;
}

void flatten(const std::vector<Act>& acts, std::map<int64_t, const Act*>* out) {
  for (auto& a : acts) {
    (*out)[a.val.id] = &a;
    flatten(a.then, out);
  }
}

void property(Case& c) {
  nextId = 1000;
  size_t n = 1 + c.draw(5);
  std::vector<In1> msgs(n);
  std::string desc;
  static const char* names[] = {"v/req1", "v/req5", "v/req5 later", "v-ev1", "v/req3"};
  size_t waits = 0, actions = 0;
  for (size_t i = 0; i < n; i++) {
    auto& m = msgs[i];
    m.kind = int(c.draw(5));
    m.seq = int64_t(i) + 1;
    m.val = genVal(c, int64_t(i) + 1, false);
    m.result = genVal(c, int64_t(i) + 1, false);
    desc += std::string(i ? "; " : "") + names[m.kind] + ":";
    for (size_t k = c.draw(4); k > 0; k--) m.acts.push_back(genAct(c, 0, true, &desc));
    if (m.kind != 3 && c.flip()) {
      desc += " sent:";
      for (size_t k = c.draw(3); k > 0; k--) m.sentActs.push_back(genAct(c, 0, true, &desc));
    }
    for (auto* v : {&m.acts, &m.sentActs}) {
      for (auto& a : *v) {
        actions++;
        waits += a.kind == Act::kAsk || a.kind == Act::kAskFor;
      }
    }
  }
  std::vector<Act> mine;  // of the main thread, concurrently
  desc += "; main:";
  for (size_t k = c.draw(3); k > 0; k--) mine.push_back(genAct(c, 0, true, &desc));
  std::vector<Act> closing;  // of the close callback
  desc += "; close:";
  for (size_t k = c.draw(3); k > 0; k--) closing.push_back(genAct(c, 0, false, &desc));
  bool pull = c.chance(1, 5);
  std::map<int64_t, const Act*> plan;
  for (auto& m : msgs) {
    flatten(m.acts, &plan);
    flatten(m.sentActs, &plan);
  }
  flatten(mine, &plan);
  flatten(closing, &plan);

  vs::run(c, [&] {
    auto in = std::make_shared<In>(c);
    auto out = std::make_shared<Out>(c);
    auto session = dap::Session::create();
    auto raw = session.get();
    using Res = dap::ResponseOrError<dap::VRes2>;
    struct Posted {
      const Act* act;
      std::shared_ptr<dap::future<Res>> future;
    };
    std::vector<Posted> posted;
    std::map<int64_t, int> expectOnWire;  // events and requests by id
    std::deque<std::pair<size_t, std::function<void()>>> later;
    std::set<int64_t> inFlight;           // acts that have begun and not ended
    std::vector<size_t> order;
    std::set<int> registered;
    std::map<int, int> gotExtra, wantExtra;
    // Orders what one thread leaves for another in `posted` and `later`.
    std::mutex handover;
    int running = 0, closes = 0;
    bool closed = false;

    std::function<void(const Act&, bool)> act;
    auto check = [&](const Act& a, const Res& r) {
      if (a.fail) {
        if (!r.error || r.error.message != a.message) {
          c.fail("request %lld was answered with error '%s', its future has '%s'",
                 (long long)a.val.id, a.message.c_str(), r.error.message.c_str());
        }
      } else if (r.error || fromMsg(r.response) != a.answer) {
        c.fail("request %lld was answered with %s, its future has %s%s", (long long)a.val.id,
               a.answer.str().c_str(), r.error.message.c_str(), fromMsg(r.response).str().c_str());
      }
    };
    // The error handlers: when onError() was called and returned.
    std::vector<std::pair<uint64_t, uint64_t>> errorHandlers{{1, 2}};
    uint64_t errorClock = 2;
    bool probing = false;
    std::vector<size_t> probed;
    auto onError = [&](size_t handler, const char* m) {
      vs::Quiet q;
      if (probing) {
        probed.push_back(handler);
      } else if (!closed) {
        c.fail("an error is reported for valid traffic: %s", m);
      }
    };
    auto run = [&](const std::vector<Act>& acts, bool open) {
      for (auto& a : acts) act(a, open);
    };
    act = [&](const Act& a, bool open) {
      {
        vs::Quiet q;
        inFlight.insert(a.val.id);
      }
      auto expect = [&] {
        vs::Quiet q;
        expectOnWire[a.val.id]++;
      };
      switch (a.kind) {
        case Act::kEvent:
          if (open) expect();
          raw->send(toMsg<dap::VEv3>(a.val));
          break;
        case Act::kAsk:
        case Act::kAskFor: {
          expect();
          auto f = raw->send(toMsg<dap::VReq2>(a.val));
          if (a.kind == Act::kAskFor) f.wait_for(std::chrono::seconds(1));  // may time out
          auto r = f.get();
          vs::Quiet q;
          check(a, r);
          break;
        }
        case Act::kPost: {
          if (open) expect();
          auto f = std::make_shared<dap::future<Res>>(raw->send(toMsg<dap::VReq2>(a.val)));
          std::lock_guard<std::mutex> lock(handover);
          vs::Quiet q;
          if (open) posted.push_back({&a, f});
          break;
        }
        case Act::kChain: {
          if (open) expect();
          auto request = toMsg<dap::VReq2>(a.val);
          auto calls = std::make_shared<int>(0);
          raw->send(dap::TypeOf<dap::VReq2>::type(), dap::TypeOf<dap::VRes2>::type(), &request,
                    [&, calls, open](const void* res, const dap::Error* err) {
                      {
                        vs::Quiet q;
                        if ((*calls)++) c.fail("a response handler was called twice");
                        Res r;
                        if (err) {
                          r.error = *err;
                        } else {
                          r.response = *static_cast<const dap::VRes2*>(res);
                        }
                        if (open) check(a, r);
                      }
                      run(a.then, open);
                    });
          break;
        }
        case Act::kRegister: {
          int k;
          {
            vs::Quiet q;
            k = int(registered.size());
            if (k >= 2) break;
            registered.insert(k);
          }
          auto hit = [&gotExtra, k] {
            vs::Quiet q;
            gotExtra[k]++;
          };
          if (k == 0) {
            raw->registerHandler([hit](const dap::VEv2&) { hit(); });
          } else {
            raw->registerHandler([hit](const dap::VReq4&, std::function<void(dap::VRes4)> cb) {
              hit();
              cb(dap::VRes4());
            });
          }
          if (open) {
            {
              vs::Quiet q;
              wantExtra[k]++;
            }
            Val v;
            v.id = 1;
            in->feed(frame(toJson(k == 0 ? eventJ(900, "v-ev2", toJ(v)) : requestJ(901, "v/req4", toJ(v)))));
          }
          break;
        }
        case Act::kComplete: {
          std::function<void()> f;
          {
            std::lock_guard<std::mutex> lock(handover);
            vs::Quiet q;
            if (later.empty()) break;
            f = later.front().second;
            later.pop_front();
          }
          f();
          break;
        }
        case Act::kSetError: {
          size_t k;
          {
            vs::Quiet q;
            k = errorHandlers.size();
            errorHandlers.emplace_back(++errorClock, 0);
          }
          raw->onError([&, k](const char* m) { onError(k, m); });
          vs::Quiet q;
          errorHandlers[k].second = ++errorClock;
          break;
        }
      }
      vs::Quiet q;
      inFlight.erase(a.val.id);
    };
    session->onError([&](const char* m) { onError(0, m); });

    auto begin = [&](const Val& v, bool event) -> In1& {
      vs::Quiet q;
      if (v.id < 1 || v.id > int64_t(n)) c.fail("handler called with %s", v.str().c_str());
      auto& m = msgs[size_t(v.id) - 1];
      if (m.dispatched++) c.fail("message %lld was dispatched twice", (long long)v.id);
      if ((m.kind == 3) != event || m.val != v) c.fail("handler called with %s", v.str().c_str());
      if (running++) c.fail("two handlers are running at the same time");
      order.push_back(size_t(v.id));
      return m;
    };
    auto end = [&](In1& m) {
      vs::Quiet q;
      m.finished++;
      running--;
    };
    session->registerHandler([&](const dap::VReq1& r) {
      auto& m = begin(fromMsg(r), false);
      run(m.acts, true);
      end(m);
      return toMsg<dap::VRes1>(m.result);
    });
    session->registerHandler([&](const dap::VReq3& r) {
      auto& m = begin(fromMsg(r), false);
      run(m.acts, true);
      end(m);
      return dap::Error("err %d", int(m.seq));
    });
    session->registerHandler([&](const dap::VReq5& r,
                                 std::function<void(dap::ResponseOrError<dap::VRes5>)> cb) {
      auto& m = begin(fromMsg(r), false);
      auto complete = [&m, cb] { cb(toMsg<dap::VRes5>(m.result)); };
      if (m.kind == 2) {
        {
          std::lock_guard<std::mutex> lock(handover);
          vs::Quiet q;
          later.push_back({size_t(m.seq), complete});
        }
        run(m.acts, true);
      } else {
        run(m.acts, true);
        complete();
      }
      end(m);
    });
    session->registerHandler([&](const dap::VEv1& e) {
      auto& m = begin(fromMsg(e), true);
      run(m.acts, true);
      end(m);
    });
    auto onSent = [&](int64_t id) {
      In1* m;
      {
        vs::Quiet q;
        if (id < 1 || id > int64_t(n)) c.fail("sent handler called with %lld", (long long)id);
        m = &msgs[size_t(id) - 1];
        if (m->sent++) c.fail("the sent handler was called twice for request %lld", (long long)id);
      }
      run(m->sentActs, true);
    };
    session->registerSentHandler([&](const dap::ResponseOrError<dap::VRes1>& r) { onSent(r.response.id); });
    session->registerSentHandler([&](const dap::ResponseOrError<dap::VRes5>& r) { onSent(r.response.id); });
    session->registerSentHandler([&](const dap::ResponseOrError<dap::VRes3>& r) {
      onSent(atoi(r.error.message.c_str() + 4));
    });

    auto onClose = [&] {
      {
        vs::Quiet q;
        closes++;
        closed = true;
      }
      run(closing, false);
    };

    // The peer.
    bool stop = false;
    FrameParser peer;
    std::vector<std::string> answers;
    int64_t peerSeq = 5000;
    std::thread peerThread([&] {
      size_t fed = 0, seen = 0;
      while (true) {
        vs::waitUntil("the session sends", [&] {
          while (peer.poll(c, out->data)) {
          }
          return stop || fed < n || seen < peer.messages.size() || !answers.empty();
        });
        std::string feed;
        {
          vs::Quiet q;
          for (; seen < peer.messages.size(); seen++) {
            auto& m = peer.messages[seen];
            auto type = m.get("type");
            if (!type || type->s != "request") continue;
            auto args = m.get("arguments");
            auto it = plan.find(args ? intOf(c, *args, "id") : -1);
            if (it == plan.end()) c.fail("an unknown request was sent");
            auto& a = *it->second;
            int64_t rs = intOf(c, m, "seq");
            answers.push_back(frame(toJson(a.fail ? failureJ(peerSeq++, rs, "v/req2", a.message)
                                                  : responseJ(peerSeq++, rs, "v/req2", toJ(a.answer)))));
          }
          if (answers.empty() && fed == n) {
            if (stop) return;
            continue;
          }
          size_t k = c.draw(answers.size() + (fed < n ? 1 : 0));
          if (k < answers.size()) {
            feed = answers[k];
            answers.erase(answers.begin() + long(k));
          } else {
            auto& m = msgs[fed++];
            static const char* wire[] = {"v/req1", "v/req5", "v/req5", "v-ev1", "v/req3"};
            feed = frame(toJson(m.kind == 3 ? eventJ(m.seq, wire[m.kind], toJ(m.val))
                                            : requestJ(m.seq, wire[m.kind], toJ(m.val))));
          }
        }
        in->feed(feed);
      }
    });
    std::thread puller, dispatcher;
    std::deque<std::function<void()>> payloads;
    bool pulled = false;
    if (pull) {
      session->connect(in, out);
      puller = std::thread([&] {
        while (true) {
          auto p = session->getPayload();
          std::lock_guard<std::mutex> lock(handover);
          vs::Quiet q;
          if (in->ended) {
            pulled = true;
            return;
          }
          if (p) payloads.push_back(p);
        }
      });
      dispatcher = std::thread([&] {
        while (true) {
          vs::waitUntil("a payload", [&] { return pulled || !payloads.empty(); });
          std::function<void()> p;
          {
            std::lock_guard<std::mutex> lock(handover);
            vs::Quiet q;
            if (payloads.empty()) return;
            p = payloads.front();
            payloads.pop_front();
          }
          p();
        }
      });
    } else {
      session->bind(in, out, onClose);
    }
    run(mine, true);
    vs::waitIdle();
    // What is left is completed from here.
    while (true) {
      std::function<void()> f;
      {
        std::lock_guard<std::mutex> lock(handover);
        vs::Quiet q;
        if (later.empty()) break;
        f = later.front().second;
        later.pop_front();
      }
      f();
      vs::waitIdle();
    }
    {
      vs::Quiet q;
      std::string stuck;
      for (auto id : inFlight) {
        stuck += pbt::fmt(" %s#%lld", actNames[plan[id]->kind], (long long)id);
      }
      if (!stuck.empty()) c.fail("a call of a handler does not return:%s", stuck.c_str());
      for (size_t i = 0; i < n; i++) {
        auto& m = msgs[i];
        if (m.dispatched != 1 || m.finished != 1) {
          c.fail("message %zu (%s) was dispatched %d times, the handler returned %d times", i + 1,
                 names[m.kind], m.dispatched, m.finished);
        }
        if (order[i] != i + 1) c.fail("message %zu was dispatched as number %zu", order[i], i + 1);
        if (m.sent != (m.kind == 3 ? 0 : 1)) c.fail("the sent handler was called %d times for message %zu", m.sent, i + 1);
      }
      stop = true;
    }
    {
      std::lock_guard<std::mutex> lock(handover);
    }
    for (auto& p : posted) {
      if (p.future->wait_for(std::chrono::seconds(0)) != dap::future_status::ready) {
        c.fail("request %lld was answered, but its future is not ready", (long long)p.act->val.id);
      }
      auto r = p.future->get();
      vs::Quiet q;
      check(*p.act, r);
    }
    peerThread.join();
    {
      vs::Quiet q;
      for (int k = 0; k < 2; k++) {
        if (gotExtra[k] != wantExtra[k]) {
          c.fail("a handler that was registered by a handler was called %d times, not %d", gotExtra[k], wantExtra[k]);
        }
      }
      FrameParser p;
      p.all(c, out->data);
      std::map<int64_t, int> wire;
      for (auto& m : p.messages) {
        auto& type = m.get("type")->s;
        if (type == "response") {
          int64_t rs = intOf(c, m, "request_seq");
          if (rs == 901) continue;
          if (rs < 1 || rs > int64_t(n)) c.fail("a response to %lld", (long long)rs);
          auto& q = msgs[size_t(rs) - 1];
          if (q.answered++) c.fail("message %lld was answered twice", (long long)rs);
          static const char* cmd[] = {"v/req1", "v/req5", "v/req5", "v-ev1", "v/req3"};
          J want = q.kind == 4 ? failureJ(intOf(c, m, "seq"), rs, cmd[q.kind], pbt::fmt("err %d", int(rs)))
                               : responseJ(intOf(c, m, "seq"), rs, cmd[q.kind], toJ(q.result));
          if (!same(m, want)) c.fail("message %lld was answered with %s", (long long)rs, toJson(m).c_str());
        } else {
          auto body = m.get(type == "event" ? "body" : "arguments");
          int64_t id = intOf(c, *body, "id");
          if (!plan.count(id) || !same(*body, toJ(plan[id]->val))) {
            c.fail("a handler sent %lld, on the wire is %s", (long long)id, toJson(m).c_str());
          }
          wire[id]++;
        }
      }
      if (wire != expectOnWire) c.fail("%zu messages were sent by handlers, %zu are on the wire", expectOnWire.size(), wire.size());
      for (auto& m : msgs) {
        if (m.answered != (m.kind == 3 ? 0 : 1)) c.fail("message %lld was answered %d times", (long long)m.seq, m.answered);
      }
      probing = true;
    }
    // An error is reported to the handler that was set last.
    in->feed(frame(toJson(eventJ(1, "v-none", toJ(Val())))));
    vs::waitUntil("the error handler is called", [&] { return !probed.empty(); });
    vs::waitIdle();
    {
      vs::Quiet q;
      for (auto k : probed) {
        for (auto& e : errorHandlers) {
          if (e.first > errorHandlers[k].second) {
            c.fail("an error is reported to an error handler that was replaced");
          }
        }
      }
      probing = false;
      closed = true;
    }
    in->end();
    if (puller.joinable()) puller.join();
    if (dispatcher.joinable()) dispatcher.join();
    vs::waitIdle();
    session.reset();
    vs::Quiet q;
    if (closes != (pull ? 0 : 1)) c.fail("the close callback was called %d times", closes);
    for (auto& a : closing) {
      if (!pull && inFlight.count(a.val.id)) c.fail("a call of the close callback did not return");
    }
  });
  c.describe(desc + (pull ? " | pulled" : ""));
  c.label("calls by handlers", actions);
  c.label("handlers that wait for an answer", waits);
  c.label("preemptions", vs::preemptions());
  if (actions) c.nontrivial(pbt::hashStr(desc) ^ vs::switches() << 20);
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Options o;
  o.name = "c31_reentrant";
  o.rule =
      "A case is a schedule plus 1-5 incoming requests and events, whose handlers "
      "and sent handlers use the session: send events and requests, wait for the "
      "answers, chain requests from response handlers, register handlers, complete "
      "earlier requests, replace the error handler; a peer answers in any order; "
      "the close callback sends as well. All calls must return, and the dispatch "
      "order, futures and wire are compared with the plan. Non-trivial: at least "
      "one call by a handler; distinct: plan and switches.";
  o.property = property;
  o.quickCases = 80000;
  o.thoroughCases = 4000000;
  o.quickCap = 40;
  o.workerInit = [](int) { h::warmUp(); };
  return pbt::run(argc, argv, o);
}
