// C11: concurrent sends put whole, uniquely numbered messages on the wire.
#include "sess.h"

#include <mutex>

namespace {
using namespace h;

// An outgoing message.
struct Op {
  int kind;    // 0..2 request VReq1..3, 3..5 event VEv1..3, 6 response
  int thread;  // sender; the dispatch thread or an asynchronous completion: -1
  Val val;
  bool async = false;  // the response is sent by another thread
  bool error = false;
  int64_t requestSeq = 0;
  size_t wire = 0;
  int seen = 0;
};

void property(Case& c) {
  int T = 1 + int(c.weighted({1, 3, 2, 1}));
  size_t nSend = 1 + c.draw(8);
  size_t nResp = c.draw(4);
  bool many = c.chance(1, 400);
  if (many) nSend = 30 + c.draw(600);
  std::vector<Op> ops(nSend + nResp);
  std::string desc = pbt::fmt("%d thread(s):", T);
  static const char* names[] = {"v/req1", "v/req2", "v/req3",
                                "v-ev1",  "v-ev2",  "v-ev3"};
  uint64_t hash = 3;
  for (size_t i = 0; i < ops.size(); i++) {
    auto& o = ops[i];
    if (many) {
      o.val.id = int64_t(i) + 1;
    } else {
      o.val = genVal(c, int64_t(i) + 1);
    }
    if (i < nSend) {
      o.kind = int(c.draw(6));
      o.thread = int(c.draw(uint64_t(T)));
    } else {
      o.kind = 6;
      o.thread = -1;
      o.async = c.flip();
      o.error = c.chance(1, 4);
      o.requestSeq = 100 + int64_t(i);
    }
    hash = hash * 31 + uint64_t(o.kind * 8 + o.thread + 1);
    desc += pbt::fmt(" t%d:%s", o.thread, o.kind < 6 ? names[o.kind] : o.async ? "async response" : "response");
  }
  bool sendFromHandler = nResp && c.flip();
  size_t total = ops.size() + (sendFromHandler ? nResp : 0);

  vs::run(c, [&] {
    auto in = std::make_shared<In>(c);
    auto out = std::make_shared<Out>(c);
    auto session = dap::Session::create();
    session->onError([&](const char* msg) { c.fail("error: %s", msg); });
    std::vector<std::thread> completers;
    std::mutex completersMutex;
    session->registerHandler(
        [&](const dap::VReq5& r,
            std::function<void(dap::ResponseOrError<dap::VRes5>)> cb) {
          if (sendFromHandler) {
            Val v;
            v.id = 1000 + int64_t(r.id);
            session->send(toMsg<dap::VEv1>(v));
          }
          auto& o = ops[size_t(r.id) - 1];
          auto finish = [&o, cb] {
            if (o.error) {
              cb(dap::Error(o.val.text + "!"));
            } else {
              cb(toMsg<dap::VRes5>(o.val));
            }
          };
          if (o.async) {
            std::unique_lock<std::mutex> lock(completersMutex);
            completers.emplace_back(finish);
          } else {
            finish();
          }
        });
    session->bind(in, out);
    std::vector<std::thread> threads;
    auto keep = std::make_shared<std::vector<std::shared_ptr<void>>>();
    for (int t = 0; t < T; t++) {
      threads.emplace_back([&, t] {
        for (auto& o : ops) {
          if (o.thread != t) continue;
          switch (o.kind) {
            case 0: session->send(toMsg<dap::VReq1>(o.val)); break;
            case 1: session->send(toMsg<dap::VReq2>(o.val)); break;
            case 2: session->send(toMsg<dap::VReq3>(o.val)); break;
            case 3: session->send(toMsg<dap::VEv1>(o.val)); break;
            case 4: session->send(toMsg<dap::VEv2>(o.val)); break;
            default: session->send(toMsg<dap::VEv3>(o.val)); break;
          }
        }
      });
    }
    for (size_t i = nSend; i < ops.size(); i++) {
      Val v;
      v.id = int64_t(i) + 1;
      in->feed(frame(toJson(requestJ(ops[i].requestSeq, "v/req5", toJ(v)))));
    }
    for (auto& t : threads) t.join();
    vs::waitIdle();
    {
      std::unique_lock<std::mutex> lock(completersMutex);
      for (auto& t : completers) t.join();
    }

    vs::Quiet q;
    FrameParser p;
    p.all(c, out->data);
    if (p.messages.size() != total) {
      c.fail("%zu messages were sent, %zu are on the wire", total, p.messages.size());
    }
    std::set<int64_t> seqs;
    std::vector<size_t> last(size_t(T), 0);
    size_t fromHandler = 0;
    for (size_t k = 0; k < p.messages.size(); k++) {
      auto& m = p.messages[k];
      int64_t seq = intOf(c, m, "seq");
      if (!seqs.insert(seq).second) c.fail("the sequence number %lld is used twice", (long long)seq);
      if (seq < 1 || seq > int64_t(total)) c.fail("the sequence number %lld is not one of 1..%zu", (long long)seq, total);
      Op* op = nullptr;
      J want;
      if (m.isStr("type", "response")) {
        int64_t rs = intOf(c, m, "request_seq");
        for (auto& o : ops) {
          if (o.kind == 6 && o.requestSeq == rs) op = &o;
        }
        if (!op) c.fail("unexpected response %s", p.bodies[k].c_str());
        if (op->error) {
          want = failureJ(seq, rs, "v/req5", op->val.text + "!");
        } else {
          want = responseJ(seq, rs, "v/req5", toJ(op->val));
        }
      } else {
        bool req = m.isStr("type", "request");
        auto args = m.get(req ? "arguments" : "body");
        if (!args) c.fail("a message has no content: %s", p.bodies[k].c_str());
        int64_t id = intOf(c, *args, "id");
        if (id > 1000) {
          Val v;
          v.id = id;
          fromHandler++;
          want = eventJ(seq, "v-ev1", toJ(v));
        } else {
          if (id < 1 || id > int64_t(nSend)) c.fail("unexpected message %s", p.bodies[k].c_str());
          op = &ops[size_t(id) - 1];
          want = req ? requestJ(seq, names[op->kind], toJ(op->val))
                     : eventJ(seq, names[op->kind], toJ(op->val));
          if (op->kind >= 3 && req) c.fail("an event was sent as a request");
          auto& l = last[size_t(op->thread)];
          if (size_t(id) < l) {
            c.fail("thread %d sent message %lld before message %zu, on the wire "
                   "it is after it",
                   op->thread, (long long)id, l);
          }
          l = size_t(id);
        }
      }
      if (op && op->seen++) c.fail("message %s is on the wire twice", p.bodies[k].c_str());
      if (!same(m, want)) {
        c.fail("on the wire is %s, sent was %s", p.bodies[k].c_str(), toJson(want).c_str());
      }
    }
    if (sendFromHandler && fromHandler != nResp) c.fail("events of the handler are missing");
  });
  c.describe(desc + pbt::fmt(" | %llu switches", (unsigned long long)vs::switches()));
  if (T > 1) c.label("concurrent senders");
  if (nResp) c.label("with responses");
  c.label("messages", total);
  c.label("preemptions", vs::preemptions());
  if (total > 1 && (T > 1 || nResp)) c.nontrivial(hash ^ vs::switches() << 20 ^ vs::preemptions() << 40);
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Options o;
  o.name = "c11_sends";
  o.rule =
      "A case is a schedule plus 1-4 threads sending 1-9 (rarely to 630) requests and events "
      "with generated content, and 0-3 incoming requests answered by the "
      "dispatch thread or asynchronously, over a transport that accepts bytes "
      "in pieces. The output is parsed strictly and compared with what was "
      "sent. Non-trivial: two or more messages by more than one thread; "
      "distinct: program, switches and preemptions.";
  o.property = property;
  o.quickCases = 50000;
  o.thoroughCases = 6000000;
  o.quickCap = 40;
  o.workerInit = [](int) { h::warmUp(); };
  return pbt::run(argc, argv, o);
}
