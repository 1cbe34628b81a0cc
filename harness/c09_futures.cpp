// C09: each request's future receives exactly its own response.
#include "sess.h"

namespace {
using namespace h;

struct Reply {
  bool given = false;
  bool error = false;
  bool anyMessage = false;  // an error whose text is not specified
  bool anyResult = false;   // a response whose body is not what was asked for
  Val val;
  std::string message;
};

struct Req {
  int kind;     // 0..2: VReq1..3
  int thread;
  int waitHow;  // 0 get at the end, 1 get at once, 2 wait_for then get
  Val val;
  int64_t seq = 0;
  bool sent = false;   // send() has returned
  bool done = false;   // the future was ready
  Reply reply;
};

void property(Case& c) {
  int T = 1 + int(c.weighted({2, 3, 2, 1}));
  size_t N = 1 + c.draw(T == 1 ? 5 : 7);
  bool pull = c.chance(1, 4);
  std::vector<Req> reqs(N);
  std::string desc = pbt::fmt("%d sender(s)%s:", T, pull ? ", pulled" : "");
  for (size_t i = 0; i < N; i++) {
    reqs[i].kind = int(c.draw(3));
    reqs[i].thread = int(c.draw(uint64_t(T)));
    reqs[i].waitHow = int(c.draw(3));
    reqs[i].val = genVal(c, int64_t(i) + 1, false);
  }
  size_t strays = 0, dups = 0, outOfOrder = 0, odd = 0;
  uint64_t hash = 1;

  vs::run(c, [&] {
    auto in = std::make_shared<In>(c);
    auto out = std::make_shared<Out>(c);
    auto session = dap::Session::create();
    int events = 0, eventsSent = 0, errors = 0;
    session->onError([&](const char*) {
      vs::Quiet q;
      errors++;
    });
    session->registerHandler([&](const dap::VEv1& e) {
      vs::Quiet q;
      events++;
    });
    bool stop = false;
    std::thread puller;
    if (pull) {
      session->connect(in, out);
      puller = std::thread([&] {
        while (true) {
          auto payload = session->getPayload();
          if (payload) payload();
          vs::Quiet q;
          if (stop) return;
        }
      });
    } else {
      session->bind(in, out);
    }

    auto check = [&](Req& r, bool isError, const std::string& message,
                     const Val& val) {
      vs::Quiet q;
      if (!r.reply.given) c.fail("request %lld got a result although there was no response to it", (long long)r.val.id);
      if (r.reply.anyResult) {
        r.done = true;
        return;
      }
      if (r.reply.error != isError) {
        c.fail("request %lld got %s (%s), the peer sent %s",
               (long long)r.val.id, isError ? "an error" : "a response",
               isError ? pbt::esc(message).c_str() : val.str().c_str(),
               r.reply.error ? "an error" : "a response");
      }
      if (isError) {
        if (message.empty() || (!r.reply.anyMessage && message != r.reply.message)) {
          c.fail("request %lld got the error '%s', the peer sent '%s'",
                 (long long)r.val.id, pbt::esc(message).c_str(),
                 pbt::esc(r.reply.message).c_str());
        }
      } else if (val != r.reply.val) {
        c.fail("request %lld got %s, the peer sent %s", (long long)r.val.id,
               val.str().c_str(), r.reply.val.str().c_str());
      }
      r.done = true;
    };

    std::vector<std::thread> threads;
    for (int t = 0; t < T; t++) {
      threads.emplace_back([&, t] {
        std::vector<std::function<void()>> later;
        for (auto& r : reqs) {
          if (r.thread != t) continue;
          auto go = [&](auto request) {
            auto f = std::make_shared<decltype(session->send(request))>(
                session->send(request));
            {
              vs::Quiet q;
              r.sent = true;
              if (!f->valid()) c.fail("the future is not valid");
            }
            auto wait = [&check, &r, f]() mutable {
              if (r.waitHow == 2) {
                if (f->wait_for(std::chrono::milliseconds(5)) ==
                    dap::future_status::ready) {
                  vs::Quiet q;
                  if (!r.reply.given) {
                    pbt::current()->fail("the future of request %lld is ready "
                                         "although there was no response",
                                         (long long)r.val.id);
                  }
                }
              }
              auto res = f->get();
              bool e = bool(res.error);
              check(r, e, res.error.message, fromMsg(res.response));
            };
            if (r.waitHow == 1) {
              wait();
            } else {
              later.push_back(wait);
            }
          };
          switch (r.kind) {
            case 0: go(toMsg<dap::VReq1>(r.val)); break;
            case 1: go(toMsg<dap::VReq2>(r.val)); break;
            default: go(toMsg<dap::VReq3>(r.val)); break;
          }
        }
        for (auto& f : later) f();
      });
    }

    // The peer.
    FrameParser frames;
    std::map<int64_t, Req*> bySeq;
    std::vector<Req*> pending, answered;
    int64_t seq = 1;
    size_t replied = 0;
    auto say = [&](const J& j) { in->feed(frame(toJson(j))); };
    static const char* commands[] = {"v/req1", "v/req2", "v/req3"};
    int noise = 8;
    while (replied < N) {
      vs::waitUntil("a request is sent", [&] {
        return !pending.empty() || out->data.size() > frames.pos;
      });
      int act;
      {
        vs::Quiet q;
        size_t n = frames.messages.size();
        while (frames.poll(c, out->data)) {
        }
        for (; n < frames.messages.size(); n++) {
          auto& m = frames.messages[n];
          int64_t s = intOf(c, m, "seq");
          auto args = m.get("arguments");
          if (!m.isStr("type", "request") || !args) c.fail("unexpected message %s", toJson(m).c_str());
          int64_t id = intOf(c, *args, "id");
          if (id < 1 || id > int64_t(N)) c.fail("a request has the id %lld", (long long)id);
          auto& r = reqs[size_t(id) - 1];
          if (r.seq) c.fail("request %lld was sent twice", (long long)id);
          if (!m.isStr("command", commands[r.kind])) c.fail("wrong command: %s", toJson(m).c_str());
          if (bySeq.count(s)) c.fail("two requests have the sequence number %lld", (long long)s);
          r.seq = s;
          bySeq[s] = &r;
          pending.push_back(&r);
        }
        act = pending.empty() ? -1 : int(c.weighted({6, 2, 1, 1, 2, 1}));
        if (act > 0 && noise-- <= 0) act = 0;
      }
      if (act < 0) {
        vs::yield();
        continue;
      }
      switch (act) {
        case 0: {  // answer
          J m;
          {
            vs::Quiet q;
            size_t k = c.draw(pending.size());
            if (k) outOfOrder++;
            Req* r = pending[k];
            pending.erase(pending.begin() + long(k));
            replied++;
            answered.push_back(r);
            auto& rep = r->reply;
            rep.given = true;
            hash = hash * 31 + uint64_t(r->val.id);
            switch (c.weighted({10, 3, 3, 1, 1})) {
              case 0:
                rep.val = genVal(c, r->val.id * 100, false);
                m = responseJ(seq++, r->seq, commands[r->kind], toJ(rep.val));
                if (c.chance(1, 8)) {  // what the peer says of the command is irrelevant
                  for (size_t i = 0; i < m.o.size(); i++) {
                    if (m.o[i].first != "command") continue;
                    if (c.flip()) {
                      m.o[i].second = J::str(c.flip() ? "" : "v/req9");
                    } else {
                      m.o.erase(m.o.begin() + long(i));
                    }
                    break;
                  }
                }
                break;
              case 1:
                rep.error = true;
                rep.message = "E" + genText(c, 20);
                if (c.chance(1, 8)) rep.message += std::string(3000, 'm') + "!";
                m = failureJ(seq++, r->seq, commands[r->kind], rep.message);
                break;
              case 3:  // the body is optional
                odd++;
                m = responseJ(seq++, r->seq, commands[r->kind], J::obj());
                m.o.pop_back();
                break;
              case 4: {  // a body or success flag of another type
                odd++;
                rep.anyResult = true;
                static const std::vector<J> bodies = {
                    J::null(), J::integer(1), J::str("x"), J::arr(), J::obj()};
                m = responseJ(seq++, r->seq, commands[r->kind], c.pick(bodies));
                switch (c.draw(5)) {
                  case 0: {  // a field of another type
                    m.o.back().second = toJ(genVal(c, 1, false));
                    m.o.back().second.o[c.draw(3)].second = J::arr();
                    break;
                  }
                  case 1:
                  case 2:
                  case 3:
                    for (auto& f : m.o) {
                      if (f.first == "success" && c.flip()) {
                        f.second = c.pick(bodies);
                        rep.anyResult = false;
                        rep.error = rep.anyMessage = true;  // not a response
                      }
                    }
                    break;
                  default:
                    for (size_t i = 0; i < m.o.size(); i++) {
                      if (m.o[i].first == "success") m.o.erase(m.o.begin() + long(i));
                    }
                    rep.anyResult = false;
                    rep.error = rep.anyMessage = true;
                }
                break;
              }
              default:
                rep.error = true;
                rep.anyMessage = true;
                m = failureJ(seq++, r->seq, commands[r->kind], "");
                switch (c.draw(3)) {
                  case 0: m.o.pop_back(); break;  // no message
                  case 1: break;                  // an empty message
                  default: m.o.back().second = J::integer(5);
                }
            }
          }
          say(m);
          break;
        }
        case 1: {  // a second response to an answered request
          J m;
          {
            vs::Quiet q;
            if (answered.empty()) break;
            Req* r = c.pick(answered);
            dups++;
            m = c.flip() ? responseJ(seq++, r->seq, commands[r->kind],
                                     toJ(genVal(c, 7777, false)))
                         : failureJ(seq++, r->seq, commands[r->kind], "dup");
          }
          say(m);
          break;
        }
        case 2: {  // a response to nothing
          J m;
          {
            vs::Quiet q;
            strays++;
            int64_t s;
            switch (c.draw(5)) {
              case 0: s = 0; break;
              case 1: s = -pending[0]->seq; break;
              case 2: s = pending[0]->seq + (int64_t(1) << 32); break;
              case 3: s = 1000 + int64_t(c.draw(100)); break;
              default: s = INT64_MIN + pending[0]->seq;
            }
            m = responseJ(seq++, s, "v/req1", toJ(genVal(c, 8888, false)));
          }
          say(m);
          break;
        }
        case 3: {  // malformed
          static const std::vector<std::string> bad = {
              "{", "nonsense", "[]", "{\"seq\":1}", "{\"type\":\"response\"}",
              "{\"seq\":1,\"type\":\"response\",\"success\":true}", "1",
              "{\"seq\":1,\"type\":\"response\",\"request_seq\":\"1\",\"success\":true}",
              "{\"seq\":1,\"type\":\"response\",\"request_seq\":null,\"success\":true}",
              "{\"seq\":1,\"type\":\"other\",\"request_seq\":1,\"success\":true}",
              "{\"type\":\"response\",\"request_seq\":1,\"success\":true}",
              "{\"seq\":\"x\",\"type\":\"response\",\"request_seq\":1,\"success\":true}"};
          std::string b;
          {
            vs::Quiet q;
            strays++;
            b = c.pick(bad);
          }
          in->feed(frame(b));
          break;
        }
        case 4: {  // an event
          eventsSent++;
          say(eventJ(seq++, "v-ev1", toJ(genVal(c, 5, false))));
          break;
        }
        default: {  // a request of the peer with the number of a pending one
          J m;
          {
            vs::Quiet q;
            strays++;
            m = requestJ(pending[0]->seq, "v/req1", toJ(genVal(c, 9999, false)));
          }
          say(m);
        }
      }
    }
    for (auto& t : threads) t.join();
    vs::waitIdle();
    {
      vs::Quiet q;
      for (auto& r : reqs) {
        if (!r.done) c.fail("request %lld has no result", (long long)r.val.id);
      }
      if (events != eventsSent) {
        c.fail("%d of %d events were dispatched", events, eventsSent);
      }
      stop = true;
    }
    in->end();
    if (pull) puller.join();
    session.reset();
  });
  for (auto& r : reqs) desc += pbt::fmt(" t%d:%lld", r.thread, (long long)r.val.id);
  c.describe(desc + pbt::fmt("; %zu duplicate, %zu stray, %zu out of order, %llu switches",
                             dups, strays, outOfOrder,
                             (unsigned long long)vs::switches()));
  if (outOfOrder) c.label("answered out of order");
  if (dups) c.label("with duplicate responses");
  if (strays) c.label("with stray messages");
  if (odd) c.label("with an absent or ill-typed body or success flag");
  if (T > 1) c.label("concurrent senders");
  c.label("preemptions", vs::preemptions());
  if (N > 1) c.nontrivial(hash ^ (vs::switches() << 20) ^ (vs::preemptions() << 40) ^ dups << 8 ^ strays);
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Options o;
  o.name = "c09_futures";
  o.rule =
      "A case is a schedule, 1-4 threads sending 1-8 requests of three types "
      "through one session (threaded or pulled) and a raw peer that answers in "
      "any order with generated results or errors, absent or "
      "ill-typed bodies, duplicates, unknown "
      "sequence numbers, malformed messages, events and requests in between; "
      "each future must get what was sent for its number. Non-trivial: two or "
      "more requests; distinct: order of answers, switches, preemptions, noise.";
  o.property = property;
  o.quickCases = 30000;
  o.thoroughCases = 6000000;
  o.quickCap = 40;
  o.workerInit = [](int) { h::warmUp(); };
  return pbt::run(argc, argv, o);
}
