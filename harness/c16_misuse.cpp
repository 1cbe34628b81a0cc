// C16: API misuse and protocol errors are reported and have no other effect.
#include "sess.h"

namespace {
using namespace h;

struct World {
  int generation = 0;               // of the error handler, 0: none
  std::map<int, int> errors;        // by generation
  std::map<std::string, int> calls; // by handler
  int extra = 0;                    // calls of handlers that must not be called
  int total() const {
    int n = 0;
    for (auto& e : errors) n += e.second;
    return n;
  }
};

std::string badMessage(Case& c, std::string* what) {
  Val v;
  v.id = 1;
  J j;
  int64_t seq = genInt(c);
  switch (c.draw(13)) {
    case 0:
      *what = "no type";
      j = requestJ(seq, "v/req1", toJ(v));
      j.o.erase(j.o.begin() + 1);
      break;
    case 1:
      *what = "unknown type";
      j = c.flip() ? requestJ(seq, "v/req1", toJ(v)) : eventJ(seq, "v-ev1", toJ(v));
      switch (c.draw(4)) {
        case 0: j.get("type")->s += c.pick(std::vector<std::string>{"x", "s", " ", std::string(1, '\0')}); break;
        case 1: j.get("type")->s.resize(c.draw(j.get("type")->s.size())); break;
        case 2: j.get("type")->s[0] = char(toupper(j.get("type")->s[0])); break;
        default: j.get("type")->s = c.pick(std::vector<std::string>{"", "REQUEST", "%s%n", "xevent", " request"});
      }
      break;
    case 2:
      *what = "type is no string";
      j = eventJ(seq, "v-ev1", toJ(v));
      *j.get("type") = c.flip() ? J::integer(1) : J::null();
      break;
    case 3:
      *what = "no seq";
      j = eventJ(seq, "v-ev1", toJ(v));
      j.o.erase(j.o.begin());
      break;
    case 4:
      *what = "seq is no number";
      j = requestJ(seq, "v/req1", toJ(v));
      *j.get("seq") = c.flip() ? J::str("1") : J::boolean(true);
      break;
    case 5:
      *what = "no command";
      j = requestJ(seq, "v/req1", toJ(v));
      j.o.erase(j.o.begin() + 2);
      break;
    case 6:
      *what = "unknown command";
      j = requestJ(seq, c.pick(std::vector<std::string>{"", "v/req", "V/req1", "v/req1 ", " v/req1", "v/re", "v/req11", "v-ev1", "%s%n%s", std::string("v/req1\0", 7)}), toJ(v));
      break;
    case 7:
      *what = "no event";
      j = eventJ(seq, "v-ev1", toJ(v));
      j.o.erase(j.o.begin() + 2);
      break;
    case 8:
      *what = "unknown event";
      j = eventJ(seq, c.pick(std::vector<std::string>{"", "v-ev", "v-ev1 ", "V-ev1", "v-ev1\n", std::string("v-ev1\0", 6), "v-ev11", "v/req1", "%n%n", std::string(3000, 'e')}), toJ(v));
      break;
    case 9:
      *what = "response without request_seq";
      j = responseJ(seq, 1, "v/req1", toJ(v));
      j.o.erase(j.o.begin() + 2);
      break;
    case 10:
      *what = "response to nothing";
      // The sessions of this property send no requests.
      j = c.flip() ? responseJ(seq, genInt(c), "v/req1", toJ(v))
                   : failureJ(seq, genInt(c), "v/req1", "x");
      break;
    case 11:
      *what = "undecodable";
      j = c.flip() ? requestJ(seq, "v/req1", J::arr()) : eventJ(seq, "v-ev1", J::str("x"));
      break;
    default:
      *what = "no JSON";
      return c.pick(std::vector<std::string>{"{", "nope", "[1,2", "\"", "{\"seq\":1,}", "%s"});
  }
  return toJson(j);
}

// Connecting and starting in any order, any number of times.
void anyOrder(Case& c) {
  size_t n = 1 + c.draw(6);
  std::vector<int> ops;
  std::string desc = "any order:";
  uint64_t hash = 5;
  for (size_t i = 0; i < n; i++) {
    static const char* names[] = {" connect", " start", " bind"};
    ops.push_back(int(c.draw(3)));
    desc += names[ops.back()];
    hash = hash * 4 + uint64_t(ops.back());
  }
  vs::Config cfg;
  cfg.races = false;  // connect() after a start is not synchronized with that
  vs::run(c, [&] {
    int errors = 0, want = 0, closes = 0, events = 0;
    std::vector<std::shared_ptr<In>> ins;
    std::vector<std::shared_ptr<Out>> outs;
    int bound = -1;
    bool started = false, serving = false;
    auto session = dap::Session::create();
    session->onError([&](const char*) {
      vs::Quiet q;
      errors++;
    });
    session->registerHandler([&](const dap::VEv1&) {
      vs::Quiet q;
      events++;
    });
    for (size_t i = 0; i < n; i++) {
      ins.push_back(std::make_shared<In>(c));
      outs.push_back(std::make_shared<Out>(c));
      auto connected = [&] {
        vs::Quiet q;
        if (bound >= 0) {
          want++;
        } else {
          bound = int(i);
        }
      };
      auto startedNow = [&] {
        vs::Quiet q;
        if (started) {
          want++;
        } else {
          serving = bound >= 0;
        }
        started = true;
      };
      auto onClose = [&] {
        vs::Quiet q;
        closes++;
      };
      switch (ops[i]) {
        case 0:
          connected();
          session->connect(ins[i], outs[i]);
          break;
        case 1:
          startedNow();
          session->startProcessingMessages(onClose);
          break;
        default:
          connected();
          startedNow();
          session->bind(ins[i], outs[i], onClose);
      }
      vs::waitIdle();
      vs::Quiet q;
      if (errors != want) c.fail("%s, call %zu: %d errors are reported instead of %d", desc.c_str(), i + 1, errors, want);
    }
    if (bound >= 0) {
      Val v;
      session->send(toMsg<dap::VEv1>(v));
      ins[size_t(bound)]->feed(frame(toJson(eventJ(1, "v-ev1", toJ(v)))));
      vs::waitIdle();
      vs::Quiet q;
      FrameParser p;
      p.all(c, outs[size_t(bound)]->data);
      if (p.messages.size() != 1) c.fail("%s: an event is not sent over the first connection", desc.c_str());
      if (serving && events != 1) c.fail("%s: an event is not received", desc.c_str());
      if (serving && closes) c.fail("%s: the close callback is called", desc.c_str());
    }
    session.reset();
    vs::Quiet q;
    if (errors != want) c.fail("%s: an error is reported without reason", desc.c_str());
    for (size_t i = 0; i < n; i++) {
      if (int(i) != bound && (ins[i]->closes || outs[i]->closes || ins[i]->reads || outs[i]->writes)) {
        c.fail("%s: the streams of another connect are used", desc.c_str());
      }
    }
    if (serving && closes != 1) c.fail("%s: the close callback is called %d times", desc.c_str(), closes);
  }, cfg);
  c.describe(desc);
  c.label("connected and started in any order");
  if (n > 1) c.nontrivial(hash ^ vs::switches() << 24);
}

void property(Case& c) {
  if (c.chance(1, 20)) {
    anyOrder(c);
    return;
  }
  size_t n = 1 + c.draw(12);
  if (c.chance(1, 200)) n = 60 + c.draw(100);
  bool concurrent = c.chance(1, 4);
  int bindAt = int(c.draw(4));  // operation that binds
  std::string desc;
  uint64_t hash = 3;
  int misuses = 0;
  vs::run(c, [&] {
    World w;
    std::map<std::string, int> want;
    auto in = std::make_shared<In>(c);
    auto out = std::make_shared<Out>(c);
    auto in2 = std::make_shared<In>(c);
    auto out2 = std::make_shared<Out>(c);
    int closes = 0, closes2 = 0;
    auto session = dap::Session::create();
    bool noHandler = false;
    auto setErrorHandler = [&](bool none) {
      if (none) {
        // No errors are reported until there is a handler again.
        session->onError(dap::Session::ErrorHandler());
        vs::Quiet q;
        noHandler = true;
        w.generation++;
        return;
      }
      int g;
      {
        vs::Quiet q;
        g = w.generation + 1;
      }
      session->onError([&w, g](const char* m) {
        vs::Quiet q;
        if (!m) pbt::current()->fail("the error has no text");
        w.errors[g]++;
      });
      vs::Quiet q;
      noHandler = false;
      w.generation = g;
    };
    setErrorHandler(false);
    // Each handler of a type counts under a name of its own.
    std::set<int> registered;
    int order = 0;
    auto reg = [&](int kind) {
      std::string name = pbt::fmt("h%d.%d", kind, order++);
      bool dup = !registered.insert(kind).second;
      auto hit = [&w, &c, name, dup] {
        vs::Quiet q;
        if (dup) c.fail("the second handler of a type was called");
        w.calls[name.substr(0, 2)]++;
      };
      switch (kind) {
        case 0:
          session->registerHandler([hit](const dap::VReq1& r) {
            hit();
            return toMsg<dap::VRes1>(fromMsg(r));
          });
          break;
        case 1:
          session->registerHandler([hit](const dap::VReq2& r, std::function<void(dap::VRes2)> cb) {
            hit();
            cb(toMsg<dap::VRes2>(fromMsg(r)));
          });
          break;
        case 2: session->registerHandler([hit](const dap::VEv1&) { hit(); }); break;
        case 3: session->registerHandler([hit](const dap::VEv2&) { hit(); }); break;
        default:
          session->registerSentHandler([hit](const dap::ResponseOrError<dap::VRes1>&) { hit(); });
      }
      return dup;
    };
    bool bound = false, started = false;
    size_t responses = 0, sent = 0;
    auto before = [&] {
      vs::Quiet q;
      return w.errors;
    };
    auto expect = [&](std::map<int, int>& b, bool error, const std::string& what) {
      vs::waitIdle();
      vs::Quiet q;
      for (auto& e : w.errors) {
        if (e.first != w.generation && e.second != b[e.first]) {
          c.fail("%s: an error handler that was replaced is called", what.c_str());
        }
      }
      int k = w.errors[w.generation] - b[w.generation];
      if (error && !noHandler && k < 1) c.fail("%s: the error handler was not called", what.c_str());
      if (!error && k != 0) c.fail("%s: the error handler was called", what.c_str());
      for (auto& x : w.calls) {
        if (x.second != want[x.first]) {
          c.fail("%s: handler %s was called %d times, not %d", what.c_str(), x.first.c_str(), x.second, want[x.first]);
        }
      }
      for (auto& x : want) {
        if (x.second != w.calls[x.first]) {
          c.fail("%s: handler %s was called %d times, not %d", what.c_str(), x.first.c_str(), w.calls[x.first], x.second);
        }
      }
      if (in2->reads || in2->closes || out2->writes || out2->closes) {
        c.fail("%s: the streams of a second connect are used", what.c_str());
      }
      if (closes || closes2) c.fail("%s: a close callback was called", what.c_str());
      if (in->closed || out->closed) c.fail("%s: the stream was closed", what.c_str());
    };
    for (size_t i = 0; i < n; i++) {
      std::string what;
      if (int(i) == bindAt) {
        auto b = before();
        session->connect(in, out);
        bound = true;
        expect(b, false, "connect");
        session->startProcessingMessages([&] { closes++; });
        started = true;
        expect(b, false, "start");
      }
      auto b = before();
      bool error = false;
      switch (c.weighted({3, 1, 1, 2, 4, 5, 2})) {
        case 0:
          what = "register";
          error = reg(int(c.draw(5)));
          if (error) what = "register twice";
          break;
        case 1:
          if (!bound) continue;
          what = "connect twice";
          session->connect(in2, out2);
          error = true;
          break;
        case 2:
          if (!started) continue;
          what = "start twice";
          if (c.flip()) {
            session->startProcessingMessages([&] { closes2++; });
          } else {
            // Both are misuse.
            session->bind(in2, out2, [&] { closes2++; });
          }
          error = true;
          break;
        case 3:
          what = "onError";
          setErrorHandler(c.chance(1, 4));
          if (noHandler) what = "onError(none)";
          b = before();
          break;
        case 4: {
          if (!bound) continue;
          in->feed(frame(badMessage(c, &what)));
          error = true;
          break;
        }
        case 5: {
          if (!bound) continue;
          int k = int(c.draw(4));
          Val v = genVal(c, 1, false);
          static const char* names[] = {"v/req1", "v/req2", "v-ev1", "v-ev2"};
          what = std::string("receive ") + names[k];
          in->feed(frame(toJson(k < 2 ? requestJ(int64_t(i), names[k], toJ(v))
                                      : eventJ(int64_t(i), names[k], toJ(v)))));
          error = !registered.count(k);
          if (!error) {
            want[pbt::fmt("h%d", k)]++;
            if (k < 2) responses++;
            if (k == 0 && registered.count(4)) want["h4"]++;
          }
          break;
        }
        default: {
          what = "send event";
          Val v;
          session->send(toMsg<dap::VEv3>(v));
          error = !bound;
          if (bound) sent++;
        }
      }
      desc += (desc.empty() ? "" : ", ") + what;
      hash = pbt::hashStr(what, hash);
      misuses += error;
      expect(b, error, what);
    }
    if (bound) {
      if (concurrent) {
        // Errors while the error handler is replaced.
        size_t bad = 1 + c.draw(4), swaps = 1 + c.draw(3);
        std::vector<std::string> msgs;
        std::string what;
        for (size_t i = 0; i < bad; i++) msgs.push_back(frame(badMessage(c, &what)));
        if (noHandler) setErrorHandler(false);
        int errorsBefore = w.total();
        std::thread feeder([&] {
          for (auto& m : msgs) in->feed(m);
        });
        std::thread registrar([&] {
          vs::yield();
          for (int k = 0; k < 3; k++) reg(k);
        });
        for (size_t i = 0; i < swaps; i++) setErrorHandler(false);
        feeder.join();
        registrar.join();
        vs::waitIdle();
        {
          vs::Quiet q;
          if (w.total() - errorsBefore < int(bad)) {
            c.fail("%zu bad messages were received while the error handler was replaced, %d errors reported",
                   bad, w.total() - errorsBefore);
          }
        }
        misuses += int(bad);
      }
      // All is as it was.
      vs::Quiet q;
      FrameParser p;
      p.all(c, out->data);
      if (p.messages.size() != responses + sent) {
        c.fail("%zu responses and %zu events are expected, %zu messages were written", responses, sent, p.messages.size());
      }
    }
    session.reset();
    vs::Quiet q;
    if (bound && closes != 1) c.fail("the close callback was called %d times", closes);
    if (closes2) c.fail("the close callback of a second start was called");
    if (in2->closes || out2->closes || in2->reads || out2->writes) c.fail("the streams of a second connect are used");
  });
  c.describe(desc + (concurrent ? " | concurrent errors" : ""));
  c.label("operations with an error", uint64_t(misuses));
  c.label("preemptions", vs::preemptions());
  if (misuses) c.nontrivial(hash ^ vs::switches() << 24 ^ uint64_t(bindAt) << 60);
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Options o;
  o.name = "c16_misuse";
  o.rule =
      "A case is a schedule plus a history of 1-13 operations on a session: "
      "registrations (also repeated), binding (also repeated), replacement (also removal) of "
      "the error handler, valid and invalid incoming messages, sends; then "
      "errors while the handler is replaced concurrently. After every operation "
      "the error and handler calls are compared with a model. Non-trivial: at "
      "least one operation is an error; distinct: history and switches.";
  o.property = property;
  o.quickCases = 60000;
  o.thoroughCases = 6000000;
  o.quickCap = 40;
  o.workerInit = [](int) { h::warmUp(); };
  return pbt::run(argc, argv, o);
}
