// C12: every handled request is answered exactly once and faithfully.
#include "sess.h"

namespace {
using namespace h;

struct Call {
  int style;      // 0 Response, 1 ResponseOrError, 2 Error, 3 callback(Response),
                  // 4 callback(ResponseOrError)
  int64_t seq;
  int when = 0;   // callback: 0 during the call, 1 during the call by another
                  // thread, 2 later by a completer thread
  bool error = false;
  Val val;
  std::string message;
  bool handled = false;
  bool completed = false;
  int sent = 0;   // calls of the sent handler
  int written = 0;
};

std::string genMessage(Case& c) {
  std::string m;
  switch (c.weighted({16, 16, 4, 4, 1, 4})) {
    case 0: m = genText(c, 20); break;
    case 5: {
      // Words of the protocol.
      static const std::vector<std::string> words = {
          "v/req1", "v/req2", "v/req3", "v/req4", "v/req5", "cancelled", "notStopped",
          "null", "true", "false", "success", "{}", "message", "0"};
      m = c.pick(words);
      break;
    }
    case 1: m = "100% %s %n %d %"; break;
    case 2: m = std::string(2040 + c.draw(20), 'e') + genText(c, 4); break;
    case 3: m = genText(c, 200); break;
    default: m = genLong(c) + genText(c, 4);
  }
  // An Error without a message is no error.
  if (m.empty()) m = "x";
  return m;
}

void property(Case& c) {
  size_t n = 1 + c.draw(6);
  std::vector<Call> calls(n);
  std::string desc;
  static const char* names[] = {"v/req1", "v/req2", "v/req3", "v/req4", "v/req5"};
  uint64_t hash = 9;
  std::set<int64_t> seqs;
  for (size_t i = 0; i < n; i++) {
    auto& k = calls[i];
    k.style = int(c.draw(5));
    k.seq = c.chance(1, 3) ? genInt(c) : int64_t(i) + 1;
    while (!seqs.insert(k.seq).second) k.seq++;
    if (k.style >= 3) k.when = int(c.draw(3));
    k.error = k.style == 2 || ((k.style == 1 || k.style == 4) && c.flip());
    if (k.error) {
      k.message = genMessage(c);
    } else {
      k.val = genVal(c, 1000 + int64_t(i));
    }
    hash = hash * 131 + uint64_t(k.style * 10 + k.when * 2 + k.error);
    desc += pbt::fmt("%s%s #%lld %s%s", i ? "; " : "", names[k.style], (long long)k.seq,
                     k.error ? "error " : "response",
                     k.when == 2 ? " later" : k.when == 1 ? " by another thread" : "");
  }
  unsigned sentMask = unsigned(c.draw(32));
  // Registered by the first call of the request handler.
  unsigned lateMask = c.chance(1, 4) ? unsigned(c.draw(32)) : 0;
  int completerThreads = 1 + int(c.draw(2));
  bool pull = c.chance(1, 5);
  // The peer closes its end as soon as it has got that many responses.
  size_t closeAfter = c.chance(1, 5) ? 1 + c.draw(n) : 0;

  vs::run(c, [&] {
    auto in = std::make_shared<In>(c);
    auto out = std::make_shared<Out>(c);
    auto session = dap::Session::create();
    session->onError([&](const char* msg) {
      vs::Quiet q;
      if (!out->closed) c.fail("error: %s", msg);
    });
    FrameParser got;
    if (closeAfter) {
      out->closeWhen = [&] {
        while (got.poll(c, out->data)) {
        }
        return got.messages.size() >= closeAfter;
      };
    }
    std::vector<std::function<void()>> later;  // completions
    bool noMore = false;

    std::function<void(int)> registerSent;
    bool registered[5] = {};
    auto start = [&](int style, int64_t id) -> Call& {
      if (!registered[style]) registerSent(style);
      vs::Quiet q;
      if (id < 1 || id > int64_t(n)) c.fail("request with id %lld", (long long)id);
      auto& k = calls[size_t(id) - 1];
      if (k.style != style) c.fail("wrong handler");
      if (k.handled) c.fail("request %lld was dispatched twice", (long long)id);
      k.handled = true;
      if (!k.when) k.completed = true;
      return k;
    };
    auto complete = [&](Call& k, std::function<void()> f) {
      auto g = [&k, f] {
        {
          vs::Quiet q;
          k.completed = true;
        }
        f();
      };
      switch (k.when) {
        case 0:
          g();
          break;
        case 1: {
          std::thread t(g);
          t.join();
          break;
        }
        default: {
          vs::Quiet q;
          later.push_back(g);
        }
      }
    };
    session->registerHandler([&](const dap::VReq1& r) {
      return toMsg<dap::VRes1>(start(0, r.id).val);
    });
    session->registerHandler([&](const dap::VReq2& r) -> dap::ResponseOrError<dap::VRes2> {
      auto& k = start(1, r.id);
      if (k.error) return dap::Error(k.message);
      return toMsg<dap::VRes2>(k.val);
    });
    session->registerHandler([&](const dap::VReq3& r) {
      return dap::Error(start(2, r.id).message);
    });
    session->registerHandler([&](const dap::VReq4& r, std::function<void(dap::VRes4)> cb) {
      auto& k = start(3, r.id);
      complete(k, [&k, cb] { cb(toMsg<dap::VRes4>(k.val)); });
    });
    session->registerHandler([&](const dap::VReq5& r,
                                 std::function<void(dap::ResponseOrError<dap::VRes5>)> cb) {
      auto& k = start(4, r.id);
      complete(k, [&k, cb] {
        if (k.error) {
          cb(dap::Error(k.message));
        } else {
          cb(toMsg<dap::VRes5>(k.val));
        }
      });
    });

    // The responses that are completely on the wire.
    auto onWire = [&](const Call& k) {
      FrameParser p;
      while (p.poll(c, out->data)) {
      }
      int found = 0;
      for (auto& m : p.messages) {
        auto rs = m.get("request_seq");
        if (rs && rs->kind == J::Int && rs->i == k.seq) found++;
      }
      return found;
    };
    auto sentHandler = [&](int style, bool isError, const std::string& message, const Val& val) {
      vs::Quiet q;
      // Which call this is about: the results are unique, as responses have
      // ids; for errors any call with the message that has none yet.
      Call* match = nullptr;
      for (auto& k : calls) {
        if (k.style != style || k.error != isError || !k.completed) continue;
        if (isError ? k.message != message : k.val != val) continue;
        if (!match || (match->sent && !k.sent)) match = &k;
      }
      if (!match) {
        c.fail("the sent handler of %s was called with %s, which was not a result",
               names[style], isError ? pbt::esc(message).c_str() : val.str().c_str());
      }
      if (match->sent++) c.fail("the sent handler of %s was called twice for one response", names[style]);
      if (out->closed) return;  // a response that could not be sent
      if (!isError && !onWire(*match)) {
        c.fail("the sent handler of %s was called before the response was written", names[style]);
      }
      if (isError) {
        int w = 0, s = 0;
        for (auto& k : calls) {
          if (k.style == style && k.error && k.message == message) {
            w += onWire(k);
            s += k.sent;
          }
        }
        if (s > w) c.fail("the sent handler of %s was called before the response was written", names[style]);
      }
    };
#define SENT(N)                                                                     \
  if (style == N - 1 && (sentMask & (1 << (N - 1)))) {                              \
    raw->registerSentHandler([&](const dap::ResponseOrError<dap::VRes##N>& r) {     \
      sentHandler(N - 1, bool(r.error), r.error.message, fromMsg(r.response));      \
    });                                                                             \
  }
    auto raw = session.get();
    registerSent = [&, raw](int style) {
      registered[style] = true;
      SENT(1) SENT(2) SENT(3) SENT(4) SENT(5)
    };
    for (int style = 0; style < 5; style++) {
      if (!((lateMask >> style) & 1)) registerSent(style);
    }

    std::vector<std::thread> threads;
    if (pull) {
      session->connect(in, out);
      threads.emplace_back([&] {
        while (true) {
          if (auto p = session->getPayload()) p();
          vs::Quiet q;
          if (in->ended) return;
        }
      });
    } else {
      session->bind(in, out);
    }
    for (int t = 0; t < completerThreads; t++) {
      threads.emplace_back([&] {
        while (true) {
          vs::waitUntil("a completion", [&] { return noMore || !later.empty(); });
          std::function<void()> f;
          {
            vs::Quiet q;
            if (!later.empty()) {
              size_t k = c.draw(later.size());
              f = later[k];
              later.erase(later.begin() + long(k));
            } else if (noMore) {
              return;
            }
          }
          if (f) f();
        }
      });
    }
    for (size_t i = 0; i < n; i++) {
      Val v;
      v.id = int64_t(i) + 1;
      in->feed(frame(toJson(requestJ(calls[i].seq, names[calls[i].style], toJ(v)))));
    }
    vs::waitIdle();
    {
      vs::Quiet q;
      noMore = true;
    }
    in->end();
    for (auto& t : threads) t.join();
    session.reset();

    vs::Quiet q;
    FrameParser p;
    p.all(c, out->data);
    for (size_t f = 0; f < p.messages.size(); f++) {
      auto& m = p.messages[f];
      int64_t rs = intOf(c, m, "request_seq"), seq = intOf(c, m, "seq");
      Call* k = nullptr;
      for (auto& x : calls) {
        if (x.seq == rs) k = &x;
      }
      if (!k) c.fail("response to an unknown request: %s", p.bodies[f].c_str());
      if (k->written++) c.fail("request #%lld was answered twice", (long long)rs);
      J want = k->error ? failureJ(seq, rs, names[k->style], k->message)
                        : responseJ(seq, rs, names[k->style], toJ(k->val));
      if (!same(m, want)) {
        c.fail("the response is %s, it should be %s", pbt::esc(p.bodies[f], 600).c_str(),
               pbt::esc(toJson(want), 600).c_str());
      }
    }
    for (auto& k : calls) {
      if (!k.handled) c.fail("request #%lld was not dispatched", (long long)k.seq);
      if (closeAfter && k.written == 0) {
        if (p.messages.size() < closeAfter) c.fail("request #%lld was not answered", (long long)k.seq);
        continue;
      }
      if (k.written != 1) c.fail("request #%lld was answered %d times", (long long)k.seq, k.written);
      int want = (sentMask >> k.style) & 1;
      if (k.sent != want) {
        c.fail("the sent handler of %s was called %d time(s) for request #%lld", names[k.style], k.sent, (long long)k.seq);
      }
    }
  });
  c.describe(desc + pbt::fmt(" | sent handlers %x, %llu switches", sentMask,
                             (unsigned long long)vs::switches()));
  for (auto& k : calls) {
    if (k.when == 2) c.label("completed later");
    if (k.error) c.label("errors");
    if ((sentMask >> k.style) & 1) c.label("sent handler calls");
  }
  if (closeAfter) c.label("closed by the peer after a response");
  c.label("requests", n);
  c.label("preemptions", vs::preemptions());
  c.nontrivial(hash ^ vs::switches() << 20 ^ uint64_t(sentMask) << 50);
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Options o;
  o.name = "c12_responses";
  o.rule =
      "A case is a schedule plus 1-7 requests with generated sequence numbers, "
      "handled by handlers of the five styles with generated results and error "
      "texts, completed during the call, by another thread or later in any "
      "order, with sent handlers for a generated set of types (some registered by the request handler), and a peer that may "
      "close after any of the responses; the responses on "
      "the wire and the sent handler calls are compared with the results. "
      "Every case is non-trivial; distinct: styles, completions, switches.";
  o.property = property;
  o.quickCases = 50000;
  o.thoroughCases = 6000000;
  o.quickCap = 40;
  o.workerInit = [](int) { h::warmUp(); };
  return pbt::run(argc, argv, o);
}
