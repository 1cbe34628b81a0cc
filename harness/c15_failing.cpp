// C15: sends that cannot be delivered fail promptly.
#include "sess.h"

namespace {
using namespace h;

struct Op {
  int kind;     // 0..1 request VReq1..2, 2 event
  int thread;
  Val val;
  // Outcome of the writes of this send.
  bool failed = false;  // a write was refused, or nothing was written
  bool returned = false;
  bool answered = false, gotValue = false;
  Val answer;
};

void property(Case& c) {
  // 0 never bound, 1 stream closed before, 2 the k-th write and all after it
  // fail, 3 only the k-th write fails, 4 closed at any time
  int mode = int(c.draw(5));
  int T = 1 + int(c.draw(3));
  size_t n = 1 + c.draw(6);
  size_t nIn = mode == 0 ? 0 : c.draw(4);  // incoming requests
  size_t kth = c.draw(2 * (n + nIn) + 1);
  bool partial = c.flip();
  std::vector<Op> ops(n);
  std::string desc;
  for (size_t i = 0; i < n; i++) {
    ops[i].kind = int(c.draw(3));
    ops[i].thread = int(c.draw(uint64_t(T)));
    ops[i].val = genVal(c, int64_t(i) + 1, false);
    desc += pbt::fmt(" t%d:%s", ops[i].thread, ops[i].kind < 2 ? "request" : "event");
  }
  size_t failures = 0, answers = 0;

  vs::run(c, [&] {
    auto in = std::make_shared<In>(c);
    auto out = std::make_shared<Out>(c);
    auto session = dap::Session::create();
    int errors = 0;
    // Per thread: writes made and refused.
    std::map<int, std::pair<int, int>> log;
    bool closeInv = false, firstFailure = false;
    class Logged : public dap::Writer {
     public:
      bool isOpen() override { return out->isOpen(); }
      void close() override { out->close(); }
      bool write(const void* b, size_t n) override {
        bool ok = out->write(b, n);
        vs::Quiet q;
        auto& l = (*log)[vs::tid()];
        l.first++;
        if (!ok) l.second++;
        return ok;
      }
      std::shared_ptr<Out> out;
      std::map<int, std::pair<int, int>>* log;
    };
    auto logged = std::make_shared<Logged>();
    logged->out = out;
    logged->log = &log;
    out->failWrite = [&](size_t index, size_t size) {
      if (mode == 2 && index >= kth) {
        if (!firstFailure && partial && size > 1) out->data.append(1, 'C');
        firstFailure = true;
        return true;
      }
      if (mode == 3 && index == kth) {
        firstFailure = true;
        return true;
      }
      return false;
    };
    session->onError([&](const char* m) {
      vs::Quiet q;
      errors++;
    });
    int handled = 0;
    session->registerHandler([&](const dap::VReq3& r) {
      vs::Quiet q;
      handled++;
      return toMsg<dap::VRes3>(fromMsg(r));
    });
    if (mode == 1) out->close();
    if (mode != 0) session->bind(in, logged);
    for (size_t i = 0; i < nIn; i++) {
      Val v;
      in->feed(frame(toJson(requestJ(int64_t(i) + 1, "v/req3", toJ(v)))));
    }

    size_t mustReport = 0;  // sends on the unbound or closed session
    std::vector<std::thread> threads;
    for (int t = 0; t < T; t++) {
      threads.emplace_back([&, t] {
        std::vector<std::function<void()>> later;
        for (auto& o : ops) {
          if (o.thread != t) continue;
          std::pair<int, int> before;
          int errorsBefore;
          bool closedBefore;
          {
            vs::Quiet q;
            before = log[vs::tid()];
            errorsBefore = errors;
            closedBefore = mode == 0 || out->closed;
          }
          auto judge = [&] {
            vs::Quiet q;
            auto after = log[vs::tid()];
            bool wrote = after.first > before.first;
            o.failed = !wrote || after.second > before.second;
            o.returned = true;
            if (o.failed) failures++;
            if (!wrote) {
              if (mode == 2 || mode == 3) c.fail("a send on an open session wrote nothing");
            }
            if (closedBefore) {
              mustReport++;
              if (errors == errorsBefore) {
                c.fail("a send on an unbound or closed session was not reported to the error handler");
              }
            }
          };
          auto request = [&](auto r) {
            auto f = std::make_shared<decltype(session->send(r))>(session->send(r));
            judge();
            bool ready = f->wait_for(std::chrono::seconds(0)) == dap::future_status::ready;
            if (o.failed) {
              if (!ready) c.fail("request %lld could not be sent, its future is not ready", (long long)o.val.id);
              auto res = f->get();
              if (!res.error) c.fail("request %lld could not be sent, its future has no error", (long long)o.val.id);
            } else {
              if (ready && !o.answered) c.fail("request %lld was sent, its future is ready without a response", (long long)o.val.id);
              later.push_back([&o, f, &c] {
                if (!o.answered) {
                  if (f->wait_for(std::chrono::seconds(0)) == dap::future_status::ready && !o.answered) {
                    c.fail("request %lld got a result without a response", (long long)o.val.id);
                  }
                  return;
                }
                auto res = f->get();
                if (res.error) c.fail("request %lld was answered, its future has the error %s", (long long)o.val.id, res.error.message.c_str());
                if (fromMsg(res.response) != o.answer) c.fail("request %lld got a wrong response", (long long)o.val.id);
                o.gotValue = true;
              });
            }
          };
          switch (o.kind) {
            case 0: request(toMsg<dap::VReq1>(o.val)); break;
            case 1: request(toMsg<dap::VReq2>(o.val)); break;
            default:
              session->send(toMsg<dap::VEv1>(o.val));
              judge();
          }
        }
        vs::yield();
        for (auto& f : later) f();
      });
    }
    bool stop = false;
    std::thread peer([&] {
      // Answers the requests that were sent before anything failed.
      FrameParser p;
      while (true) {
        vs::waitUntil("output", [&] { return stop || (!firstFailure && p.pos < out->data.size()); });
        std::string reply;
        {
          vs::Quiet q;
          if (stop) return;
          if (mode == 3 && firstFailure) return;
          if (!p.poll(c, out->data)) {
            // Wait for more.
            reply = "";
          } else {
            auto& m = p.messages.back();
            if (m.isStr("type", "request")) {
              int64_t id = intOf(c, *m.get("arguments"), "id");
              auto& o = ops[size_t(id) - 1];
              o.answered = true;
              answers++;
              o.answer = genVal(c, id * 10, false);
              reply = frame(toJson(responseJ(1, intOf(c, m, "seq"),
                                             m.get("command")->s, toJ(o.answer))));
            }
          }
        }
        if (!reply.empty()) {
          in->feed(reply);
        } else {
          vs::sleep(1000);
        }
      }
    });
    if (mode == 4) {
      int spin = int(c.draw(40));
      for (int i = 0; i < spin; i++) vs::yield();
      out->close();
    }
    for (auto& t : threads) t.join();
    {
      vs::Quiet q;
      stop = true;
    }
    peer.join();
    vs::waitIdle();
    vs::Quiet q;
    for (auto& o : ops) {
      if (!o.returned) c.fail("a send did not return");
      if ((mode == 0 || mode == 1) && !o.failed) c.fail("a send on an unbound or closed session succeeded");
    }
    if (handled != int(nIn)) c.fail("%d of %zu incoming requests were handled", handled, nIn);
    if (size_t(errors) < mustReport) c.fail("%zu sends were refused, %d errors reported", mustReport, errors);
  });
  static const char* names[] = {"unbound", "closed before", "failing from the k-th write",
                                "k-th write fails", "closed at any time"};
  c.describe(pbt::fmt("%s (k=%zu), %d thread(s):%s, %zu incoming; %zu failed, %zu answered, %llu switches",
                      names[mode], kth, T, desc.c_str(), nIn, failures, answers,
                      (unsigned long long)vs::switches()));
  c.label(names[mode]);
  c.label("failed sends", failures);
  c.label("answered requests", answers);
  c.label("preemptions", vs::preemptions());
  if (failures) {
    c.nontrivial(pbt::hashStr(desc, uint64_t(mode) * 100 + kth) ^ vs::switches() << 20 ^
                 vs::preemptions() << 44);
  }
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Options o;
  o.name = "c15_failing";
  o.rule =
      "A case is a schedule plus 1-3 threads sending 1-7 requests and events "
      "through a session that is unbound, closed, closed at any time, or whose "
      "transport refuses the k-th write (and all later ones), while a peer "
      "answers what it received and sends requests; the future of each send is "
      "compared with what the transport did. Non-trivial: a send failed; "
      "distinct: program, k, switches, preemptions.";
  o.property = property;
  o.quickCases = 60000;
  o.thoroughCases = 6000000;
  o.quickCap = 40;
  o.workerInit = [](int) { h::warmUp(); };
  return pbt::run(argc, argv, o);
}
