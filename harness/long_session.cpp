// C09-C12: long histories of one session. LONG_MODE is the number of the
// property that is judged. The messages are pulled by one thread: what is
// explored is length, not schedules.
#include "msgs.h"
#include "streams.h"

#include <algorithm>
#include <deque>
#include <functional>
#include <memory>

namespace {
using namespace h;

// Fails if this is what the property says; another property is concerned
// otherwise, and the case is abandoned.
struct Abandon {};
[[noreturn]] void bad(Case& c, int mode, const std::string& text) {
  if (mode == LONG_MODE) c.fail("%s", text.c_str());
  throw Abandon();
}

class In : public dap::Reader {
 public:
  bool isOpen() override { return !closed; }
  void close() override { closed = true; }
  size_t read(void* buffer, size_t n) override {
    size_t k = std::min(n, data.size() - pos);
    memcpy(buffer, data.data() + pos, k);
    pos += k;
    if (pos == data.size()) {
      data.clear();
      pos = 0;
    }
    return k;
  }
  std::string data;
  size_t pos = 0;
  bool closed = false;
};

// The messages in what a session has written since the last call. They are the
// session's own and small: found by their text, as parsing all of them would take
// most of the time.
struct Wire {
  std::string* data;
  size_t pos = 0;
  bool next(Case& c, std::string* body) {
    if (pos == data->size()) {
      data->clear();
      pos = 0;
      return false;
    }
    static const std::string prefix = "Content-Length: ";
    size_t p = pos + prefix.size(), n = 0;
    if (data->compare(pos, prefix.size(), prefix) != 0) bad(c, 11, pbt::fmt("no frame at %zu", pos));
    while (p < data->size() && isdigit(static_cast<unsigned char>((*data)[p]))) {
      n = n * 10 + size_t((*data)[p++] - '0');
    }
    if (data->compare(p, 4, "\r\n\r\n") != 0) bad(c, 11, pbt::fmt("no end of the header at %zu", p));
    p += 4;
    if (data->size() - p < n) bad(c, 11, "an incomplete frame");
    *body = data->substr(p, n);
    pos = p + n;
    return true;
  }
};

struct Phase {
  enum Kind { Events, Requests, Answers, PeerEvents, PeerRequests, Complete, Kinds } kind;
  size_t n;
  uint64_t style;
};
const char* kNames[] = {"events", "requests", "answers", "peer events", "peer requests",
                        "completions"};

void history(Case& c) {
  static const std::vector<size_t> sizes = {40, 300, 1100, 5000, 33000, 66500};
  size_t budget = sizes[c.weighted({1, 2, 3, 3, 2, 4})];
  size_t np = 1 + c.draw(6);
  std::vector<Phase> phases;
  std::string desc;
  for (size_t i = 0; i < np; i++) {
    Phase p;
    p.kind = Phase::Kind(c.weighted(LONG_MODE == 9    ? std::vector<unsigned>{1, 12, 10, 1, 1, 1}
                                    : LONG_MODE == 10 ? std::vector<unsigned>{1, 1, 1, 8, 8, 1}
                                    : LONG_MODE == 11 ? std::vector<unsigned>{8, 8, 2, 1, 4, 4}
                                                      : std::vector<unsigned>{1, 1, 1, 1, 12, 8}));
    p.n = 1 + (c.flip() ? budget / np + c.draw(8) : c.draw(budget));
    p.style = c.draw(6);
    phases.push_back(p);
    desc += pbt::fmt("%s%zu %s/%llu", i ? ", " : "", p.n, kNames[p.kind], (unsigned long long)p.style);
  }
  c.describe(desc);

  auto in = std::make_shared<In>();
  auto out = std::make_shared<BufferWriter>();
  Wire wire{&out->data};
  auto session = dap::Session::create();
  std::string error;
  session->onError([&](const char* e) { error = e; });

  size_t eventsSeen = 0, requestsSeen = 0, judged = 0, sentSeen = 0;
  int64_t nextEvent = 0, nextRequest = 0;  // expected ids at the handlers
  std::deque<std::pair<int64_t, std::function<void(dap::ResponseOrError<dap::VRes2>)>>> open;
  session->registerHandler([&](const dap::VEv1& e) {
    eventsSeen++;
    if (e.id != nextEvent || e.text != pbt::fmt("e%lld", (long long)nextEvent)) {
#if LONG_MODE == 10
      c.fail("event %lld was expected, it is %lld", (long long)nextEvent, (long long)e.id);
#endif
    }
    nextEvent++;
  });
  session->registerHandler([&](const dap::VReq1& r) {
    requestsSeen++;
#if LONG_MODE == 10
    if (r.id != nextRequest) {
      c.fail("request %lld was expected, it is %lld", (long long)nextRequest, (long long)r.id);
    }
#endif
    nextRequest++;
    dap::VRes1 res;
    res.id = r.id * 2;
    return res;
  });
  session->registerHandler(
      [&](const dap::VReq2& r, std::function<void(dap::ResponseOrError<dap::VRes2>)> cb) {
        requestsSeen++;
#if LONG_MODE == 10
        if (r.id != nextRequest) {
          c.fail("request %lld was expected, it is %lld", (long long)nextRequest, (long long)r.id);
        }
#endif
        nextRequest++;
        open.push_back({r.id, cb});
      });
  session->registerSentHandler([&](const dap::ResponseOrError<dap::VRes1>&) { sentSeen++; });
  session->registerSentHandler([&](const dap::ResponseOrError<dap::VRes2>&) { sentSeen++; });
  session->connect(in, out);

  struct Pending {
    int64_t seq;
    int64_t id;
    std::shared_ptr<dap::future<dap::ResponseOrError<dap::VRes1>>> f;
  };
  std::deque<Pending> pending;
  int64_t seq = 0;        // of the last message on the wire
  int64_t peerSeq = 0, ids = 0, peerEvents = 0, peerRequests = 0;
  size_t responses = 0;

  // Takes one message from the wire.
  auto take = [&](const char* what, int mode) {
    std::string body;
    if (!wire.next(c, &body)) bad(c, mode, pbt::fmt("no %s was sent after %lld messages (%s)", what, (long long)seq, error.c_str()));
    J j;
    std::string err;
    if (!parseJson(body, &j, &err)) bad(c, mode, pbt::fmt("not JSON: %s", pbt::esc(body, 300).c_str()));
    seq++;
    auto s = j.get("seq");
    if (!s || s->kind != J::Int) bad(c, 11, pbt::fmt("a message without number: %s", body.c_str()));
#if LONG_MODE == 11
    if (s->i != seq) c.fail("message %lld has the number %lld", (long long)seq, (long long)s->i);
    judged++;
#endif
    return j;
  };
  auto pull = [&] {
    if (auto p = session->getPayload()) p();
  };
  auto intAt = [&](const J& j, const char* a, const char* b) -> int64_t {
    auto x = j.get(a);
    if (x && b) x = x->get(b);
    return x && x->kind == J::Int ? x->i : -1;
  };
  auto checkResponse = [&](const J& j, int64_t requestSeq, const char* command, int64_t id) {
    responses++;
#if LONG_MODE == 12
    auto cmd = j.get("command");
    auto ok = j.get("success");
    if (intAt(j, "request_seq", nullptr) != requestSeq || !cmd || cmd->s != command || !ok || !ok->b ||
        intAt(j, "body", "id") != id) {
      c.fail("the response to request %lld is %s", (long long)requestSeq, pbt::esc(toJson(j), 300).c_str());
    }
    judged++;
#else
    (void)requestSeq, (void)command, (void)id;
#endif
  };

  auto answer = [&](size_t at, uint64_t style) {
    auto p = std::move(pending[at]);
    if (at == 0) pending.pop_front();
    else if (at + 1 == pending.size()) pending.pop_back();
    else {
      pending[at] = std::move(pending.back());
      pending.pop_back();
    }
    bool fails = style >= 4 && p.id % 3 == 0;
    J j = fails ? msgJ(++peerSeq, "response") : J();
    if (fails) {
      j.add("request_seq", J::integer(p.seq));
      j.add("success", J::boolean(false));
      j.add("command", J::str("v/req1"));
      j.add("message", J::str(pbt::fmt("m%lld", (long long)p.id)));
    } else {
      J b = J::obj();
      b.add("id", J::integer(p.id * 3));
      b.add("text", J::str("t"));
      b.add("list", J::arr());
      j = responseJ(++peerSeq, p.seq, "v/req1", b);
    }
    in->data += frame(toJson(j));
    pull();
#if LONG_MODE == 9
    if (p.f->wait_for(std::chrono::seconds(0)) != dap::future_status::ready) {
      c.fail("the answer of request %lld does not complete its future (%s)", (long long)p.seq, error.c_str());
    }
    auto r = p.f->get();
    if (fails) {
      if (!r.error || r.error.message != pbt::fmt("m%lld", (long long)p.id)) {
        c.fail("request %lld: the error is '%s'", (long long)p.seq, r.error.message.c_str());
      }
    } else if (r.error || r.response.id != p.id * 3) {
      c.fail("request %lld was answered with %lld, the future has %lld (%s)", (long long)p.seq,
             (long long)(p.id * 3), (long long)r.response.id, r.error.message.c_str());
    }
    judged++;
    if (p.id % 64 == 0 && !pending.empty()) {
      auto& other = pending[size_t(p.id) % pending.size()];
      if (other.f->wait_for(std::chrono::seconds(0)) == dap::future_status::ready) {
        c.fail("request %lld, which is not answered, is complete", (long long)other.seq);
      }
    }
#endif
  };

  for (auto& p : phases) {
    switch (p.kind) {
      case Phase::Events:
        for (size_t i = 0; i < p.n; i++) {
          dap::VEv2 e;
          e.id = ids++;
          session->send(e);
          J j = take("event", 11);
#if LONG_MODE == 11
          if (intAt(j, "body", "id") != e.id) c.fail("event %lld is sent as %s", (long long)e.id, toJson(j).c_str());
#endif
        }
        break;
      case Phase::Requests:
        for (size_t i = 0; i < p.n; i++) {
          dap::VReq1 r;
          r.id = ids++;
          auto f = session->send(r);
          J j = take("request", 11);
#if LONG_MODE == 11
          if (intAt(j, "arguments", "id") != r.id) c.fail("request %lld is sent as %s", (long long)r.id, toJson(j).c_str());
#endif
          pending.push_back({intAt(j, "seq", nullptr), r.id, std::make_shared<decltype(f)>(std::move(f))});
        }
        break;
      case Phase::Answers:
        for (size_t i = 0; i < p.n && !pending.empty(); i++) {
          size_t at = 0;
          switch (p.style % 4) {
            case 0: break;
            case 1: at = pending.size() - 1; break;
            case 2: at = (i * 7919) % pending.size(); break;
            default: at = i % 2 ? 0 : pending.size() - 1;
          }
          answer(at, p.style);
        }
        break;
      case Phase::PeerEvents:
        for (size_t i = 0; i < p.n; i++) {
          J b = J::obj();
          b.add("id", J::integer(peerEvents));
          b.add("text", J::str(pbt::fmt("e%lld", (long long)peerEvents)));
          b.add("list", J::arr());
          in->data += frame(toJson(eventJ(++peerSeq, "v-ev1", b)));
          peerEvents++;
          if (p.style % 2 == 0) pull();
        }
        if (p.style % 2 == 1) {
          for (size_t i = 0; i < p.n; i++) pull();
        }
#if LONG_MODE == 10
        if (eventsSeen != size_t(peerEvents)) {
          c.fail("%lld events arrived, %zu were dispatched", (long long)peerEvents, eventsSeen);
        }
        judged += p.n;
#endif
        break;
      case Phase::PeerRequests: {
        bool later = p.style % 2 == 1;
        int64_t base = p.style >= 4 ? 1ll << 40 : 0;
        for (size_t i = 0; i < p.n; i++) {
          J a = J::obj();
          int64_t id = peerRequests++;
          a.add("id", J::integer(id));
          a.add("text", J::str(""));
          a.add("list", J::arr());
          int64_t s = base + ++peerSeq;
          in->data += frame(toJson(requestJ(s, later ? "v/req2" : "v/req1", a)));
          pull();
          if (!later) {
            checkResponse(take("response", 12), s, "v/req1", id * 2);
          } else if (!open.empty()) {
            open.back().first = s;
          }
        }
#if LONG_MODE == 10
        if (requestsSeen != size_t(peerRequests)) {
          c.fail("%lld requests arrived, %zu were dispatched", (long long)peerRequests, requestsSeen);
        }
        judged += p.n;
#endif
        break;
      }
      case Phase::Complete:
        for (size_t i = 0; i < p.n && !open.empty(); i++) {
          bool back = p.style % 2 == 1;
          auto x = back ? open.back() : open.front();
          back ? open.pop_back() : open.pop_front();
          dap::VRes2 res;
          res.id = x.first + 5;
          x.second(res);
          checkResponse(take("response", 12), x.first, "v/req2", x.first + 5);
        }
        break;
      default: break;
    }
  }
#if LONG_MODE == 12
  if (sentSeen != responses) c.fail("%zu responses were sent, the sent handlers had %zu", responses, sentSeen);
#endif
#if LONG_MODE == 9
  for (uint64_t k = 0; !pending.empty(); k++) answer(k % 2 ? 0 : pending.size() - 1, 0);
#endif
  std::string rest;
  if (wire.next(c, &rest)) bad(c, 11, pbt::fmt("a message that was not sent: %s", pbt::esc(rest, 300).c_str()));
  session.reset();
  c.label("judged messages", judged);
  if (judged > 1000) c.label("more than 1000 messages");
  if (judged > 65536) c.label("more than 65536 messages");
  if (judged > 100) c.nontrivial(pbt::hashStr(desc));
}

void property(Case& c) {
  try {
    history(c);
  } catch (const Abandon&) {
  }
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Options o;
#define STR2(x) #x
#define STR(x) STR2(x)
  o.name = "long_session_" STR(LONG_MODE);
  o.rule =
      "A case is a history of 1-6 phases of up to 66500 messages: events and "
      "requests sent, answers in several orders, events and requests received, "
      "answered at once or later. Non-trivial: more than 100 messages that the "
      "property judges; distinct: by the history.";
  o.property = property;
  o.quickCases = 64;
  o.thoroughCases = 20000;
  o.quickCap = 30;
  return pbt::run(argc, argv, o);
}
