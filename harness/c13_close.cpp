// C13: the close callback fires exactly once when the endpoint closes.
#include "sess.h"

namespace {
using namespace h;

// Counts the use of a pipe.
class Counted : public dap::Reader {
 public:
  explicit Counted(std::shared_ptr<dap::ReaderWriter> p) : p(p) {}
  bool isOpen() override { return p->isOpen(); }
  void close() override { p->close(); }
  size_t read(void* b, size_t n) override {
    {
      vs::Quiet q;
      reads++;
    }
    return p->read(b, n);
  }
  std::shared_ptr<dap::ReaderWriter> p;
  size_t reads = 0;
};

void property(Case& c) {
  // What is received before the end.
  size_t messages = c.chance(1, 20) ? c.draw(40) : c.draw(4);
  std::string content;
  for (size_t i = 0; i < messages; i++) {
    content += frame(toJson(eventJ(int64_t(i), c.flip() ? "v-ev1" : "v-none",
                                   toJ(genVal(c, int64_t(i), false)))));
  }
  static const std::vector<std::string> tails = {
      "", "C", "Content-Length:", "Content-Length: 1", "Content-Length: 10\r\n",
      "Content-Length: 10\r\n\r\n", "Content-Length: 10\r\n\r\nabc", "garbage, no header at all",
      "Content-Length: 0\r\n\r\n", "Content-Length: x\r\n\r\nabc",
      "Content-Length: 300\r\n\r\n" + std::string(299, 'x')};
  size_t tail = c.draw(tails.size());
  content += tails[tail];
  bool invalid = tail >= 7 && tail <= 9;
  bool kClose = c.chance(1, 3);
  // 0 reader that stays open at the end of input, 1 reader that closes itself
  // there, 2 in-memory pipe
  int transport = int(c.draw(3));
  // 0 the peer ends the stream, 1 the local side closes the reader, 2 the
  // session is destroyed
  int how = int(c.draw(3));
  bool whenIdle = c.flip();
  bool withCallback = !c.chance(1, 10);
  bool replies = c.flip();
  int fires = 0;

  vs::run(c, [&] {
    auto in = std::make_shared<In>(c, transport == 1);
    auto out = std::make_shared<Out>(c);
    auto pipe = dap::pipe();
    auto counted = std::make_shared<Counted>(pipe);
    bool endInv = false, destroyed = false;
    auto reads = [&] { return transport == 2 ? counted->reads : in->reads; };
    size_t readsAtClose = 0;
    auto session = dap::Session::create();
    auto raw = session.get();
    session->setOnInvalidData(kClose ? dap::kClose : dap::kIgnore);
    session->onError([](const char*) {});
    session->registerHandler([&](const dap::VEv1& e) {
      if (replies) raw->send(toMsg<dap::VEv2>(fromMsg(e)));
    });
    dap::Session::ClosedHandler onClose;
    if (withCallback) {
      onClose = [&] {
        vs::Quiet q;
        if (destroyed) c.fail("the close callback was called after the session was destroyed");
        // On invalid data the session closes the stream by itself.
        if (!endInv && !(kClose && invalid)) {
          c.fail("the close callback was called although the connection is open");
        }
        if (fires++) c.fail("the close callback was called twice");
        readsAtClose = reads();
      };
    }
    if (transport == 2) {
      session->bind(counted, out, onClose);
    } else {
      session->bind(in, out, onClose);
    }
    auto peer = [&] {
      size_t cut = c.draw(content.size() + 1);
      for (auto& s : {content.substr(0, cut), content.substr(cut)}) {
        if (s.empty()) continue;
        if (transport == 2) {
          pipe->write(s.data(), s.size());
        } else {
          in->feed(s);
        }
      }
      if (how == 0 && !whenIdle) {
        endInv = true;
        if (transport == 2) {
          pipe->close();
        } else {
          in->end();
        }
      }
    };
    std::thread peerThread(peer);
    if (whenIdle) {
      vs::waitIdle();
      vs::Quiet q;
      if (withCallback && kClose && invalid && fires != 1) {
        c.fail("the stream was closed on invalid data, but the close callback was not called");
      }
    }
    int spin = int(c.draw(20));
    switch (how) {
      case 0:
        if (whenIdle) {
          {
            vs::Quiet q;
            endInv = true;
          }
          if (transport == 2) {
            pipe->close();
          } else {
            in->end();
          }
        }
        break;
      case 1:
        if (!whenIdle) {
          for (int i = 0; i < spin; i++) vs::yield();
        }
        {
          vs::Quiet q;
          endInv = true;
        }
        if (transport == 2) {
          counted->close();
        } else {
          in->close();
        }
        break;
      default:
        if (!whenIdle) {
          for (int i = 0; i < spin; i++) vs::yield();
        }
        {
          vs::Quiet q;
          endInv = true;
        }
        session.reset();
        vs::Quiet q;
        destroyed = true;
    }
    vs::waitIdle();
    auto check = [&] {
      vs::Quiet q;
      if (withCallback && fires != 1) {
        c.fail("the connection ended, the close callback was called %d times", fires);
      }
      if (withCallback && reads() != readsAtClose) {
        c.fail("the session reads after its connection has ended");
      }
      if (in->readsAfterEnd > 4) {
        c.fail("the session reads %zu times at the end of input", in->readsAfterEnd);
      }
    };
    check();
    if (session) {
      // A second end changes nothing.
      if (c.flip()) {
        if (transport == 2) {
          counted->close();
        } else {
          in->close();
        }
        vs::waitIdle();
        check();
      }
      session.reset();
    }
    peerThread.join();
    vs::waitIdle();
    check();
  });
  static const char* tn[] = {"plain reader", "self-closing reader", "pipe"};
  static const char* hn[] = {"peer ends", "local close", "destroyed"};
  c.describe(pbt::fmt("%s, %s%s, %s, %zu message(s) then %s, %llu switches",
                      tn[transport], hn[how], whenIdle ? " when idle" : "",
                      kClose ? "close on invalid" : "ignore invalid", messages,
                      pbt::esc(tails[tail], 40).c_str(), (unsigned long long)vs::switches()));
  c.label(hn[how]);
  c.label(tn[transport]);
  c.label("preemptions", vs::preemptions());
  if (withCallback) {
    c.nontrivial(pbt::hashStr(content, uint64_t(transport * 100 + how * 10 + whenIdle * 2 + kClose)) ^
                 vs::switches() << 24 ^ vs::preemptions() << 44);
  }
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Options o;
  o.name = "c13_close";
  o.rule =
      "A case is a schedule plus 0-3 (sometimes to 40) messages and a complete, partial or "
      "malformed rest, received over a custom reader (two end-of-input "
      "behaviours) or a pipe, and ended by the peer, a local close or the "
      "destruction of the session, at any time or when idle; calls of the close "
      "callback and reads are counted. Non-trivial: with a close callback; "
      "distinct: content, transport, ending, switches, preemptions.";
  o.property = property;
  o.quickCases = 240000;
  o.thoroughCases = 8000000;
  o.quickCap = 40;
  o.workerInit = [](int) { h::warmUp(); };
  return pbt::run(argc, argv, o);
}
