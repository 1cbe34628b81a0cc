// C35: an application that takes the messages of a session itself, with
// connect() and getPayload().
#include "sess.h"

#include <algorithm>
#include <deque>
#include <mutex>

namespace {
using namespace h;

enum Kind {
  kRequest, kEvent, kAnswer, kUnknownRequest, kUnknownEvent, kUnknownAnswer, kMalformed, kNoType,
  kBadField, kGarbage, kBadHeader, kKinds
};
const char* const names[] = {"request", "event", "response", "unknown request", "unknown event",
                             "unknown response", "malformed", "no message", "request of bad fields",
                             "garbage", "bad header"};

struct Msg {
  Kind kind;
  int type = 0;  // 0..1
  Val val, reply;
  bool error = false;
  int64_t seq = 0;
  size_t request = 0;  // kAnswer: which of the requests that were sent
  std::string wire;
  // What the application does with the payload.
  int use = 0;  // 0 call at once, 1 later, 2 another thread, 3 never
  // Observed.
  int calls = 0;
  bool called = false, mayRun = false;
};

struct Sent {
  std::shared_ptr<dap::future<dap::ResponseOrError<dap::VRes3>>> f;
  Val reply;
  bool error = false;
  int answeredBy = -1;
};

void property(Case& c) {
  size_t nSent = c.draw(4);
  std::vector<Sent> sent(nSent);
  size_t n = 1 + c.draw(9);
  std::vector<Msg> msgs(n);
  std::string desc = pbt::fmt("%zu requests sent;", nSent);
  uint64_t hash = nSent;
  std::vector<size_t> unanswered;
  for (size_t i = 0; i < nSent; i++) unanswered.push_back(i);
  int mode = int(c.weighted({3, 2, 2}));  // 0 as drawn, 1 all at once, 2 all by threads
  bool closeMode = c.chance(1, 4);
  for (size_t i = 0; i < n; i++) {
    auto& m = msgs[i];
    m.kind = Kind(c.weighted({6, 4, 4, 1, 1, 1, 1, 1, 1, closeMode ? 0u : 1u, closeMode ? 0u : 1u}));
    if (m.kind == kAnswer && unanswered.empty()) m.kind = kRequest;
    m.type = int(c.draw(2));
    m.val = genVal(c, int64_t(i), false);
    m.seq = int64_t(i) + 1;
    if (m.kind == kRequest || m.kind == kAnswer) {
      m.reply = genVal(c, int64_t(i) + 100, false);
      m.error = c.chance(1, 4);
    }
    m.use = mode == 1 ? 0 : mode == 2 ? 2 : int(c.weighted({4, 2, 2, 1}));
    J j;
    switch (m.kind) {
      case kRequest: j = requestJ(m.seq, m.type ? "v/req2" : "v/req1", toJ(m.val)); break;
      case kEvent: j = eventJ(m.seq, m.type ? "v-ev2" : "v-ev1", toJ(m.val)); break;
      case kAnswer: {
        size_t k = c.draw(unanswered.size());
        m.request = unanswered[k];
        unanswered.erase(unanswered.begin() + long(k));
        auto& s = sent[m.request];
        s.answeredBy = int(i);
        s.reply = m.reply;
        s.error = m.error;
        j = m.error ? failureJ(m.seq, int64_t(m.request) + 1, "v/req3", m.reply.text + "!")
                    : responseJ(m.seq, int64_t(m.request) + 1, "v/req3", toJ(m.reply));
        break;
      }
      case kUnknownRequest: j = requestJ(m.seq, "v/req5", toJ(m.val)); break;
      case kUnknownEvent: j = eventJ(m.seq, "v-ev3", toJ(m.val)); break;
      case kUnknownAnswer: j = responseJ(m.seq, 1000 + m.type, "v/req3", toJ(m.val)); break;
      case kNoType: j = m.type ? msgJ(m.seq, "other") : J::obj(); break;
      case kBadField: {
        J a = toJ(m.val);
        for (auto& f : a.o) {
          if (f.first == "text") f.second = J::integer(3);
        }
        j = requestJ(m.seq, "v/req1", a);
        break;
      }
      default: break;
    }
    switch (m.kind) {
      case kMalformed: m.wire = frame(m.type ? "{\"seq\":" : "]"); break;
      // Skipped, up to the message that follows.
      case kGarbage: m.wire = (m.type ? "garbage\r\n\r\n" : "Cont") + frame(toJson(eventJ(m.seq, "v-ev1", toJ(m.val)))); break;
      // Yields no message; the one that follows is read.
      case kBadHeader: {
        static const char* const bad[] = {"Content-Length: x\r\n\r\n", "Content-Length: 0\r\n\r\n",
                                          "Content-Length:\r\n\r\n", "Content-Length: 7;\r\n\r\n"};
        m.wire = bad[c.draw(4)] + frame(toJson(eventJ(m.seq, "v-ev1", toJ(m.val))));
        m.use = 0;
        break;
      }
      default: m.wire = frame(toJson(j));
    }
    hash = hash * 1000003 + uint64_t(m.kind * 8 + m.use) * 2 + m.error;
    static const char* uses[] = {"", "(later)", "(thread)", "(never)"};
    desc += pbt::fmt(" %s%s", names[m.kind], uses[m.use]);
  }
  int ending = int(c.draw(4));  // 0 end of the stream, 1 the stream is closed, 2 just destroyed, 3 closed by another thread
  size_t order = c.draw(2);     // of the payloads that are called later
  size_t workers = 1 + c.draw(2);
  size_t early = c.chance(1, 10) ? 1 + c.draw(2) : 0;  // calls before connect()
  c.describe(desc);
  size_t effects = 0;
  vs::run(c, [&] {
    auto in = std::make_shared<In>(c);
    auto out = std::make_shared<Out>(c);
    size_t errors = 0;
    bool destroyed = false;
    std::deque<std::pair<size_t, std::function<void()>>> queue;  // to the threads
    std::mutex mutex;
    bool over = false;
    auto session = dap::Session::create();
    session->onError([&](const char*) {
      vs::Quiet q;
      if (destroyed) c.fail("the error handler is called after the session was destroyed");
      errors++;
    });
    if (closeMode) session->setOnInvalidData(dap::kClose);
    auto called = [&](Kind kind, int type, const Val& v) -> Msg& {
      vs::Quiet q;
      if (destroyed) c.fail("a handler is called after the session was destroyed");
      if (v.id < 0 || size_t(v.id) >= n) c.fail("a handler gets a message that was not sent");
      auto& m = msgs[size_t(v.id)];
      bool plain = m.kind != kGarbage && m.kind != kBadHeader;
      Kind is = plain ? m.kind : kEvent;
      if (is != kind || (plain && m.type != type) || m.val != v) {
        c.fail("a handler gets %s instead of %s", v.str().c_str(), m.val.str().c_str());
      }
      if (!m.mayRun) c.fail("a handler is called, but the payload was not");
      m.calls++;
      if (m.calls > 1) c.fail("a handler is called twice");
      return m;
    };
    session->registerHandler([&](const dap::VReq1& r) -> dap::ResponseOrError<dap::VRes1> {
      auto& m = called(kRequest, 0, fromMsg(r));
      vs::yield();
      vs::Quiet q;
      if (m.error) return dap::Error(m.reply.text + "!");
      return toMsg<dap::VRes1>(m.reply);
    });
    session->registerHandler([&](const dap::VReq2& r) -> dap::ResponseOrError<dap::VRes2> {
      auto& m = called(kRequest, 1, fromMsg(r));
      vs::yield();
      vs::Quiet q;
      if (m.error) return dap::Error(m.reply.text + "!");
      return toMsg<dap::VRes2>(m.reply);
    });
    session->registerHandler([&](const dap::VEv1& e) { called(kEvent, 0, fromMsg(e)); });
    session->registerHandler([&](const dap::VEv2& e) { called(kEvent, 1, fromMsg(e)); });
    for (size_t i = 0; i < early; i++) {
      if (session->getPayload()) c.fail("getPayload() returns a payload before connect()");
    }
    session->connect(in, out);
    FrameParser frames;
    for (auto& s : sent) {
      s.f = std::make_shared<decltype(s.f)::element_type>(session->send(toMsg<dap::VReq3>(Val())));
    }
    size_t outBefore;
    {
      vs::Quiet q;
      frames.all(c, out->data);
      if (frames.messages.size() != nSent) c.fail("not all requests are sent");
      outBefore = frames.messages.size();
    }
    // The response of m is the next message that is sent.
    auto checkReply = [&](Msg& m, const J& got) {
      const char* command = m.type ? "v/req2" : "v/req1";
      int64_t seq = intOf(c, got, "seq");
      auto want = m.error ? failureJ(seq, m.seq, command, m.reply.text + "!")
                          : responseJ(seq, m.seq, command, toJ(m.reply));
      if (!same(got, want)) {
        c.fail("the response is %s instead of %s", pbt::esc(toJson(got), 300).c_str(),
               pbt::esc(toJson(want), 300).c_str());
      }
    };
    // What the message did, once its payload has returned. Messages that are
    // not dispatched may act at the call of getPayload().
    auto checkFuture = [&](Msg& m) {
      auto& s = sent[m.request];
      if (s.f->wait_for(std::chrono::seconds(0)) != dap::future_status::ready) {
        c.fail("a response was processed, but the future is not ready");
      }
      auto r = s.f->get();
      vs::Quiet q;
      if (m.error ? !r.error || r.error.message != m.reply.text + "!"
                  : bool(r.error) || fromMsg(r.response) != m.reply) {
        c.fail("a future gets another result than the peer sent");
      }
    };
    std::vector<std::thread> threads;
    auto runs = [&](Msg& m) { return m.kind == kRequest || m.kind == kEvent || m.kind == kGarbage || m.kind == kBadHeader; };
    auto call = [&](size_t i, const std::function<void()>& p) {
      auto& m = msgs[i];
      {
        vs::Quiet q;
        m.mayRun = true;
        effects++;
      }
      p();
      if (m.kind == kBadHeader && m.calls == 0) {
        // That was for the header.
        auto next = session->getPayload();
        if (!next) c.fail("getPayload() returns no payload after a malformed header");
        next();
      }
      {
        vs::Quiet q;
        m.called = true;
        if (runs(m) && m.calls != 1) c.fail("the payload of a %s does not call its handler", names[m.kind]);
      }
      if (m.kind == kAnswer) checkFuture(m);
    };
    for (size_t t = 0; t < workers; t++) {
      threads.emplace_back([&] {
        while (true) {
          vs::waitUntil("there is a payload", [&] { return over || !queue.empty(); });
          std::pair<size_t, std::function<void()>> p;
          {
            std::lock_guard<std::mutex> lock(mutex);
            vs::Quiet q;
            if (queue.empty()) {
              if (over) break;
              continue;
            }
            p = std::move(queue.front());
            queue.pop_front();
          }
          call(p.first, p.second);
        }
      });
    }
    std::thread feeder([&] {
      for (auto& m : msgs) in->feed(m.wire);
      if (ending == 0) in->end();
    });
    std::vector<std::pair<size_t, std::function<void()>>> later;
    bool threaded = false;
    for (size_t i = 0; i < n; i++) {
      auto& m = msgs[i];
      size_t errors0, out0;
      {
        vs::Quiet q;
        errors0 = errors;
        frames.poll(c, out->data);
      }
      {
        vs::Quiet q;
        if (!threaded) frames.all(c, out->data);
        out0 = frames.messages.size();
      }
      // It waits for the message: deadlocks are detected, and nothing else is
      // processed, because handlers that may not run yet must not.
      auto p = session->getPayload();
      if (!p) c.fail("getPayload() returns no payload for a %s, but the connection is open", names[m.kind]);
      {
        vs::Quiet q;
        for (size_t k = i + 1; k < n; k++) {
          if (msgs[k].kind == kAnswer && sent[msgs[k].request].f->wait_for(std::chrono::seconds(0)) ==
                                             dap::future_status::ready) {
            c.fail("a later response has been processed");
          }
        }
        if (!threaded) {
          frames.all(c, out->data);
          if (frames.messages.size() != out0) c.fail("getPayload() sends a message");
        }
      }
      switch (runs(m) ? m.use : 0) {
        case 0:
          call(i, p);
          break;
        case 1: {
          vs::Quiet q;
          later.emplace_back(i, std::move(p));
          break;
        }
        case 2: {
          std::lock_guard<std::mutex> lock(mutex);
          vs::Quiet q;
          queue.emplace_back(i, std::move(p));
          threaded = true;
          break;
        }
        default:
          break;
      }
      vs::Quiet q;
      if (!threaded) {
        frames.all(c, out->data);
        bool replied = m.kind == kRequest && m.use == 0;
        if (frames.messages.size() != out0 + replied) {
          c.fail("%zu messages are sent for a %s", frames.messages.size() - out0, names[m.kind]);
        }
        if (replied) checkReply(m, frames.messages.back());
      }
      if (m.kind >= kUnknownRequest && m.kind <= kBadField) {
        if (errors == errors0) c.fail("a %s is not reported", names[m.kind]);
      } else if (m.kind <= kAnswer && errors != errors0) {
        c.fail("an error is reported for a %s", names[m.kind]);
      }
    }
    if (order) std::reverse(later.begin(), later.end());
    for (auto& l : later) {
      call(l.first, l.second);
      vs::Quiet q;
      l.second = nullptr;
    }
    feeder.join();
    if (ending != 2) {
      std::thread closer;
      if (ending == 1) in->close();
      if (ending == 3) closer = std::thread([&] { in->close(); });
      for (int i = 0; i < 3; i++) {
        if (session->getPayload()) c.fail("getPayload() returns a payload, but the connection has ended");
      }
      if (closer.joinable()) closer.join();
    }
    {
      vs::Quiet q;
      over = true;
    }
    for (auto& t : threads) t.join();
    {
      vs::Quiet q;
      frames.all(c, out->data);
      std::map<int64_t, size_t> replies;
      std::set<int64_t> seqs;
      for (size_t i = 0; i < frames.messages.size(); i++) {
        if (!seqs.insert(intOf(c, frames.messages[i], "seq")).second) c.fail("two messages have the same number");
        if (i >= outBefore) {
          int64_t to = intOf(c, frames.messages[i], "request_seq");
          if (to < 1 || size_t(to) > n || msgs[size_t(to) - 1].kind != kRequest || replies.count(to)) {
            c.fail("a response to nothing is sent");
          }
          replies[to] = i;
          checkReply(msgs[size_t(to) - 1], frames.messages[i]);
        }
      }
      for (auto& m : msgs) {
        bool ran = m.calls > 0;
        bool want = runs(m) && m.use != 3;
        if (ran != want) c.fail("a %s is %s", names[m.kind], ran ? "handled" : "not handled");
        if (m.kind == kRequest && (replies.count(m.seq) > 0) != want) c.fail("a request is not answered");
      }
    }
    for (auto& s : sent) {
      if (s.answeredBy < 0 && s.f->wait_for(std::chrono::seconds(0)) == dap::future_status::ready) {
        c.fail("a future is ready without a response");
      }
    }
    session.reset();
    vs::Quiet q;
    destroyed = true;
  });
  bool other = false;
  for (auto& m : msgs) {
    c.label(names[m.kind]);
    other |= m.kind > kEvent;
  }
  if (mode == 2) c.label("all payloads on other threads");
  static const char* const endings[] = {"end of the stream", "stream closed", "destroyed",
                                        "stream closed by another thread"};
  c.label(endings[ending]);
  c.label("preemptions", vs::preemptions());
  if (n > 1 && effects) c.nontrivial(hash ^ vs::switches() << 20 ^ vs::preemptions() << 40);
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Options o;
  o.name = "c35_pull";
  o.rule =
      "A case is a schedule plus 1-9 messages (requests, events, responses to 0-3 "
      "requests, unknown and malformed messages, garbage between them) that "
      "are taken with getPayload(), and a use of every payload: called at "
      "once, later in any order, by one of two other threads, or never; then the "
      "stream ends, is closed, or the session is destroyed. Every payload, "
      "handler call, response, result and error is compared with the message. "
      "Non-trivial: two or more messages and a payload that is called; distinct: "
      "messages, uses, switches, preemptions.";
  o.property = property;
  o.quickCases = 150000;
  o.thoroughCases = 10000000;
  o.quickCap = 30;
  o.workerInit = [](int) { h::warmUp(); };
  return pbt::run(argc, argv, o);
}
