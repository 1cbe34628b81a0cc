// C10: incoming requests and events are dispatched once, in order, intact.
#include "sess.h"

namespace {
using namespace h;

struct Msg {
  int kind;        // 0..2 request, 3..5 event, 6.. not dispatchable
  Val val;
  std::string body;
  uint64_t fedInv = 0;  // before its first byte can be read
  uint64_t fedRet = 0;  // all of it can be read
  int dispatched = 0;
};

struct World {
  uint64_t clock = 0;
  std::vector<int> order;   // ids in the order of dispatch
  int running = 0;
  uint64_t regInv[6] = {}, regRet[6] = {};  // registration of each kind
};

void property(Case& c) {
  size_t n = 1 + c.draw(9);
  bool pull = c.chance(1, 3);
  int pullHow = int(c.draw(3));  // call at once, call later in order, on another thread
  bool async = c.flip();         // feed from a thread of its own
  int ending = int(c.draw(3));   // end of input right after the last, when idle, closed when idle
  bool closesAtEof = c.flip();
  int late = int(c.draw(10));    // kind that is registered at any time, if < 6
  int never = int(c.draw(12));   // kind that is never registered, if < 6
  auto onInvalid = c.flip() ? dap::kIgnore : dap::kClose;
  // A burst: many messages arrive while the first handler is running.
  bool burst = !pull && c.chance(1, 400);
  if (burst) {
    n = 60 + c.draw(c.chance(1, 8) ? 1800 : 300);
    async = true;
  }
  // The writer of the session is closed at any time.
  bool noWriter = c.chance(1, 6);
  std::vector<Msg> msgs(n);
  std::string desc;
  uint64_t hash = 5;
  size_t valid = 0;
  static const char* names[] = {"v/req1", "v/req2", "v/req3",
                                "v-ev1",  "v-ev2",  "v-ev3"};
  for (size_t i = 0; i < n; i++) {
    auto& m = msgs[i];
    m.kind = int(c.draw(8));
    if (burst) {
      m.val.id = int64_t(i) + 1;
    } else {
      m.val = genVal(c, int64_t(i) + 1);
    }
    JsonStyle st;
    st.c = &c;
    st.spaces = c.chance(1, 4);
    st.escapes = c.chance(1, 4);
    J args = toJ(m.val);
    // Fields in any order, unknown ones are ignored.
    if (c.chance(1, 3)) {
      for (size_t k = args.o.size(); k > 1; k--) {
        std::swap(args.o[k - 1], args.o[c.draw(k)]);
      }
    }
    if (c.chance(1, 6)) args.add("unknown" , J::arr().push(J::integer(1)));
    int64_t seq = c.chance(1, 4) ? genInt(c) : int64_t(i) + 1;
    J j;
    if (m.kind < 3) {
      j = requestJ(seq, names[m.kind], args);
    } else if (m.kind < 6) {
      j = eventJ(seq, names[m.kind], args);
    } else {
      // Not dispatchable.
      int what = int(c.draw(9));
      bool req = c.flip();
      switch (what) {
        case 0:
          j = req ? requestJ(seq, "v/nothing", args) : eventJ(seq, "v-nothing", args);
          break;
        case 1: {  // a required field is missing or has the wrong type
          J bad = toJ(m.val);
          if (c.flip()) {
            bad.o.erase(bad.o.begin());
          } else {
            bad.o[0].second = J::str("1");
          }
          j = req ? requestJ(seq, "v/req1", bad) : eventJ(seq, "v-ev1", bad);
          break;
        }
        case 2:
          j = responseJ(seq, 1234, "v/req1", args);
          break;
        case 3:  // no type
          j = requestJ(seq, "v/req1", args);
          j.o.erase(j.o.begin() + 1);
          break;
        case 4:  // no sequence number
          j = eventJ(seq, "v-ev1", args);
          j.o.erase(j.o.begin());
          break;
        case 5:  // a request that names an event, and the other way round
          j = req ? requestJ(seq, "v-ev1", args) : eventJ(seq, "v/req1", args);
          break;
        case 6:
          j = requestJ(seq, "v/req1", args);
          j.get("type")->s = "Request";
          break;
        case 7:  // arguments under the wrong name
          j = requestJ(seq, "v/req1", args);
          for (auto& kv : j.o) {
            if (kv.first == "arguments") kv.first = "body";
          }
          break;
        default:
          break;
      }
      m.body = what == 8 ? std::string(c.pick(std::vector<std::string>{
                               "{", "}", "x", "[]", "null", "\"\"", "{\"seq\":1",
                               "\x80", "{\"seq\":1,\"type\":\"event\"} x"}))
                         : toJson(j, st);
    }
    if (m.kind < 6) {
      // Top level fields in any order.
      if (c.chance(1, 3)) {
        for (size_t k = j.o.size(); k > 1; k--) {
          std::swap(j.o[k - 1], j.o[c.draw(k)]);
        }
      }
      m.body = toJson(j, st);
      valid++;
    }
    hash = pbt::hashStr(m.body, hash);
    if (c.wantDescription()) {
      desc += pbt::fmt("%s%s %s", i ? "; " : "",
                       m.kind < 6 ? names[m.kind] : "invalid",
                       m.kind < 6 ? m.val.str().c_str() : pbt::esc(m.body, 80).c_str());
    }
  }
  int dispatchedTotal = 0;

  vs::run(c, [&] {
    World w;
    auto in = std::make_shared<In>(c, closesAtEof);
    auto out = std::make_shared<Out>(c);
    auto session = dap::Session::create();
    session->setOnInvalidData(onInvalid);
    session->onError([&](const char*) {});

    auto handle = [&](int kind, const Val& v) {
      {
        vs::Quiet q;
        if (w.running++ > 0 && !(pull && pullHow == 2)) {
          c.fail("two handlers are running at the same time");
        }
        if (v.id < 1 || v.id > int64_t(n)) c.fail("%s handler called with %s", names[kind], v.str().c_str());
        auto& m = msgs[size_t(v.id) - 1];
        if (m.kind != kind) c.fail("message %lld (%s) was dispatched to the handler of %s", (long long)v.id, m.kind < 6 ? names[m.kind] : "invalid", names[kind]);
        if (m.val != v) c.fail("the handler of %s got %s, sent was %s", names[kind], v.str().c_str(), m.val.str().c_str());
        if (m.dispatched++) c.fail("message %lld was dispatched twice", (long long)v.id);
        if (!w.regInv[kind]) c.fail("the handler of %s was called before it was registered", names[kind]);
        if (!m.fedInv) c.fail("message %lld was dispatched before it was sent", (long long)v.id);
        w.order.push_back(int(v.id));
      }
      if (burst) {
        vs::waitUntil("all messages are read", [&] { return in->pos == in->data.size() && msgs.back().fedRet; });
      } else {
        vs::yield();
      }
      vs::Quiet q;
      w.running--;
    };
    auto reg = [&](int kind) {
      {
        vs::Quiet q;
        w.regInv[kind] = ++w.clock;
      }
      switch (kind) {
        case 0:
          session->registerHandler([&](const dap::VReq1& r) {
            handle(0, fromMsg(r));
            return dap::VRes1();
          });
          break;
        case 1:
          session->registerHandler([&](const dap::VReq2& r) {
            handle(1, fromMsg(r));
            return dap::Error("no");
          });
          break;
        case 2:
          session->registerHandler([&](const dap::VReq3& r, std::function<void(dap::VRes3)> cb) {
            handle(2, fromMsg(r));
            cb(dap::VRes3());
          });
          break;
        case 3:
          session->registerHandler([&](const dap::VEv1& e) { handle(3, fromMsg(e)); });
          break;
        case 4:
          session->registerHandler([&](const dap::VEv2& e) { handle(4, fromMsg(e)); });
          break;
        default:
          session->registerHandler([&](const dap::VEv3& e) { handle(5, fromMsg(e)); });
      }
      vs::Quiet q;
      w.regRet[kind] = ++w.clock;
    };
    std::vector<int> kinds = {0, 1, 2, 3, 4, 5};
    for (int k : kinds) {
      if (k != late && k != never) reg(k);
    }
    std::vector<std::thread> threads;
    std::vector<std::thread> payloadThreads;
    std::vector<std::function<void()>> payloads;
    size_t produced = 0;
    if (pull) {
      session->connect(in, out);
      threads.emplace_back([&] {
        while (true) {
          auto p = session->getPayload();
          if (!p) {
            vs::Quiet q;
            if (in->ended || in->closed) break;
            continue;
          }
          {
            vs::Quiet q;
            produced++;
          }
          if (pullHow == 0) p();
          if (pullHow == 1) payloads.push_back(p);
          if (pullHow == 2) payloadThreads.emplace_back(p);
        }
        for (auto& p : payloads) p();
        payloads.clear();
        for (auto& t : payloadThreads) t.join();
      });
    } else {
      session->bind(in, out);
    }
    if (noWriter) threads.emplace_back([&] { out->close(); });
    if (late < 6 && late != never) threads.emplace_back([&] { reg(late); });
    auto feeder = [&] {
      for (auto& m : msgs) {
        {
          vs::Quiet q;
          m.fedInv = ++w.clock;
        }
        auto f = frame(m.body);
        size_t cut = c.chance(1, 3) ? c.draw(f.size()) : 0;
        if (cut) in->feed(f.substr(0, cut));
        in->feed(f.substr(cut));
        vs::Quiet q;
        m.fedRet = ++w.clock;
      }
      if (ending == 0) in->end();
    };
    if (async) {
      threads.emplace_back(feeder);
    } else {
      feeder();
    }
    vs::waitIdle();
    auto checkAll = [&](bool complete) {
      vs::Quiet q;
      for (auto& m : msgs) {
        if (m.kind >= 6) continue;
        bool must = w.regRet[m.kind] && w.regRet[m.kind] < m.fedInv;
        if (complete && must && !m.dispatched) {
          c.fail("message %lld (%s) was not dispatched", (long long)m.val.id,
                 names[m.kind]);
        }
      }
      if (!(pull && pullHow == 2)) {
        for (size_t i = 1; i < w.order.size(); i++) {
          if (w.order[i] < w.order[i - 1]) {
            c.fail("message %d was dispatched after message %d", w.order[i],
                   w.order[i - 1]);
          }
        }
      }
      // Messages that need no dispatching have payloads too (see C35).
      if (complete && pull && produced < w.order.size()) {
        c.fail("%zu payloads were pulled, %zu messages dispatched", produced,
               w.order.size());
      }
    };
    checkAll(!(pull && pullHow == 1 && ending != 0));
    if (ending == 1) in->end();
    if (ending == 2) in->close();
    vs::waitIdle();
    checkAll(true);
    for (auto& t : threads) t.join();
    session.reset();
    checkAll(true);
    if (in->concurrent) c.fail("two reads at the same time");
    dispatchedTotal = int(w.order.size());
    // One response for each dispatched request.
    if (noWriter) return;
    FrameParser p;
    p.all(c, out->data);
    size_t requests = 0;
    for (auto& m : msgs) requests += (m.kind < 3 && m.dispatched);
    if (p.messages.size() != requests) {
      c.fail("%zu requests were dispatched, %zu messages were written", requests,
             p.messages.size());
    }
  });
  c.describe(desc + pbt::fmt(" | %s, ending %d, %llu switches", pull ? "pulled" : "threads",
                             ending, (unsigned long long)vs::switches()));
  c.label("messages dispatched", uint64_t(dispatchedTotal));
  if (valid < n) c.label("with messages that are not dispatchable");
  if (ending == 0) c.label("ended right after the last message");
  if (pull) c.label("pulled");
  if (burst) c.label("burst of 60 or more messages");
  if (noWriter) c.label("writer closed meanwhile");
  if (late < 6 && late != never) c.label("handler registered during traffic");
  c.label("preemptions", vs::preemptions());
  if (valid > 0) c.nontrivial(hash ^ vs::switches() << 24);
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Options o;
  o.name = "c10_dispatch";
  o.rule =
      "A case is a schedule plus 1-10 generated messages (requests and events "
      "of six types with generated fields and free JSON formatting, messages "
      "that are not dispatchable) fed in generated pieces to a session in "
      "threaded or pull mode, with one handler registered during the traffic, "
      "and the end of the input at the last message or when idle, the writer "
      "sometimes closed meanwhile, and rarely 60 to 1860 messages arriving while "
      "the first is handled; the handler "
      "calls are compared with the sent messages. Non-trivial: at least one "
      "dispatchable message; distinct: message bytes and switches.";
  o.property = property;
  o.quickCases = 60000;
  o.thoroughCases = 6000000;
  o.quickCap = 40;
  o.workerInit = [](int) { h::warmUp(); };
  return pbt::run(argc, argv, o);
}
