// C30: a message is sent completely or not at all (sessions).
#define V_NO_BACKENDS
#include "sess.h"
#include "values.h"
#include "c30.h"

namespace dap {
#define V_HOLE_MSG(T, NAME)                                               \
  DAP_STRUCT_TYPEINFO_EXT(T, VHole, NAME, DAP_FIELD(end, "end"))
struct VHRes : public Response, public VHole { boolean end = false; };
V_HOLE_MSG(VHRes, "");
struct VHReq : public Request, public VHole {
  using Response = VHRes;
  boolean end = false;
};
V_HOLE_MSG(VHReq, "vh/req");
struct VHRes2 : public Response, public VHole { boolean end = false; };
V_HOLE_MSG(VHRes2, "");
struct VHReq2 : public Request {
  using Response = VHRes2;
  integer id = 0;
};
DAP_STRUCT_TYPEINFO(VHReq2, "vh/req2", DAP_FIELD(id, "id"));
struct VHEv : public Event, public VHole { boolean end = false; };
V_HOLE_MSG(VHEv, "vh-ev");
}  // namespace dap

namespace {
using namespace h;

struct Msg {
  enum Kind { Request, Event, Response } kind = Event;
  dap::VHole body;
  J j;
  bool bad = false;
  int thread = 0;
  int style = 0;
  int64_t seq = 0;  // of the request that is answered
  int seen = 0;
  int sent = 0;
  std::unique_ptr<dap::future<dap::ResponseOrError<dap::VHRes>>> future;
};

template <typename T>
T make(const Msg& m) {
  T t;
  static_cast<dap::VHole&>(t) = m.body;
  t.end = true;
  return t;
}

void property(Case& c) {
  size_t n = 1 + c.draw(6);
  int threads = 1 + int(c.draw(3));
  std::vector<Msg> msgs(n);
  std::string desc;
  uint64_t hash = 5;
  int bad = 0;
  for (size_t i = 0; i < n; i++) {
    auto& m = msgs[i];
    m.kind = Msg::Kind(c.draw(3));
    HoleGen g{c, c.flip() ? 6u : 0u};
    g.maxLen = 2;
    m.j = J::obj();
    g.fields(m.body, int(c.draw(2)), &m.j);
    m.body.id = int64_t(i) + 1;
    m.j.get("id")->i = int64_t(i) + 1;
    m.j.add("end", J::boolean(true));
    m.bad = g.holes > 0;
    bad += m.bad;
    m.thread = int(c.draw(uint64_t(threads)));
    m.style = int(c.draw(4));
    m.seq = 100 + int64_t(i);
    static const char* names[] = {"request", "event", "response"};
    desc += pbt::fmt("%s%s%s", i ? ", " : "", names[m.kind], m.bad ? " (unencodable)" : "");
    hash = pbt::hashStr(toJson(m.j), hash * 3 + m.bad);
  }
  vs::run(c, [&] {
    auto in = std::make_shared<In>(c);
    auto out = std::make_shared<Out>(c);
    auto session = dap::Session::create();
    session->onError([&](const char*) {});
    auto find = [&](int64_t id) -> Msg& {
      vs::Quiet q;
      if (id < 1 || id > int64_t(n)) c.fail("a message with id %lld", (long long)id);
      return msgs[size_t(id) - 1];
    };
    std::vector<std::function<void()>> later;
    int sentErrors[2] = {0, 0};
    session->registerHandler(
        [&](const dap::VHReq& r, std::function<void(dap::ResponseOrError<dap::VHRes>)> cb) {
          auto& m = find(r.id);
          if (m.style == 0) {
            cb(make<dap::VHRes>(m));
          } else {
            vs::Quiet q;
            later.push_back([&m, cb] { cb(make<dap::VHRes>(m)); });
          }
        });
    session->registerHandler([&](const dap::VHReq2& r) { return make<dap::VHRes2>(find(r.id)); });
    auto sent = [&](int type, const dap::Error& e, const dap::VHole& body) {
      vs::Quiet q;
      if (e) {
        sentErrors[type]++;
        return;
      }
      auto& m = find(body.id);
      if (m.bad) c.fail("the sent handler is told that an unencodable response was sent");
      m.sent++;
    };
    session->registerSentHandler(
        [&](const dap::ResponseOrError<dap::VHRes>& r) { sent(0, r.error, r.response); });
    session->registerSentHandler(
        [&](const dap::ResponseOrError<dap::VHRes2>& r) { sent(1, r.error, r.response); });
    session->bind(in, out);

    std::vector<std::thread> ts;
    for (int t = 0; t < threads; t++) {
      ts.emplace_back([&, t] {
        for (auto& m : msgs) {
          if (m.thread != t) continue;
          switch (m.kind) {
            case Msg::Request: {
              auto f = session->send(make<dap::VHReq>(m));
              vs::Quiet q;
              m.future.reset(new decltype(f)(std::move(f)));
              break;
            }
            case Msg::Event: session->send(make<dap::VHEv>(m)); break;
            default: {
              J body = J::obj();
              body.add("id", J::integer(m.body.id));
              if (m.style < 2) {
                // The request itself is encodable.
                body.add("a", J::null());
                body.add("l", J::arr());
                body.add("o", J::obj());
                body.add("v", J::integer(1));
                body.add("last", J::str(""));
                body.add("end", J::boolean(true));
              }
              in->feed(frame(toJson(requestJ(m.seq, m.style < 2 ? "vh/req" : "vh/req2", body))));
            }
          }
        }
      });
    }
    for (auto& t : ts) t.join();
    vs::waitIdle();
    for (auto& f : later) f();
    vs::waitIdle();

    // What is on the wire.
    FrameParser p;
    std::set<int64_t> seqs;
    std::vector<std::pair<int64_t, Msg*>> requests;
    {
      vs::Quiet q;
      p.all(c, out->data);
      for (size_t f = 0; f < p.messages.size(); f++) {
        auto& w = p.messages[f];
        int64_t seq = intOf(c, w, "seq");
        if (!seqs.insert(seq).second) c.fail("the number %lld is used twice", (long long)seq);
        auto type = w.get("type");
        if (!type || type->kind != J::Str) c.fail("a message without type: %s", p.bodies[f].c_str());
        Msg* m = nullptr;
        J want;
        if (type->s == "response") {
          int64_t rs = intOf(c, w, "request_seq");
          m = &find(rs - 99);
          if (m->kind != Msg::Response) c.fail("a response to no request: %s", p.bodies[f].c_str());
          const char* command = m->style < 2 ? "vh/req" : "vh/req2";
          if (m->bad) {
            auto text = w.get("message");
            if (!text || text->kind != J::Str || text->s.empty()) {
              c.fail("an unencodable response is sent as %s", pbt::esc(p.bodies[f], 500).c_str());
            }
            want = failureJ(seq, rs, command, text->s);
          } else {
            want = responseJ(seq, rs, command, m->j);
          }
        } else {
          auto body = w.get(type->s == "event" ? "body" : "arguments");
          auto id = body ? body->get("id") : nullptr;
          if (!id || id->kind != J::Int) c.fail("a message without id: %s", pbt::esc(p.bodies[f], 500).c_str());
          m = &find(id->i);
          if (m->bad) {
            c.fail("a message that is not encodable is sent: %s", pbt::esc(p.bodies[f], 500).c_str());
          }
          want = m->kind == Msg::Event ? eventJ(seq, "vh-ev", m->j) : requestJ(seq, "vh/req", m->j);
          if (m->kind == Msg::Request) requests.push_back({seq, m});
        }
        if (!sameNumbers(w, want)) {
          c.fail("the message is %s, it should be %s", pbt::esc(p.bodies[f], 600).c_str(),
                 pbt::esc(toJson(want), 600).c_str());
        }
        m->seen++;
      }
      int wantErrors[2] = {0, 0};
      for (auto& m : msgs) {
        int want = m.kind == Msg::Response || !m.bad;
        if (m.seen != want) {
          c.fail("message %lld (%s) was sent %d times", (long long)m.body.id,
                 m.bad ? "unencodable" : "encodable", m.seen);
        }
        if (m.kind != Msg::Response) continue;
        if (m.bad) wantErrors[m.style >= 2]++;
        if (m.sent != !m.bad) c.fail("the sent handler was called %d times for a response", m.sent);
      }
      for (int k = 0; k < 2; k++) {
        if (sentErrors[k] != wantErrors[k]) {
          c.fail("%d responses were unencodable, the sent handler was told of %d errors", wantErrors[k], sentErrors[k]);
        }
      }
    }
    // The other requests are answered.
    for (auto& r : requests) in->feed(frame(toJson(responseJ(1, r.first, "vh/req", r.second->j))));
    vs::waitIdle();
    for (auto& m : msgs) {
      if (m.kind != Msg::Request) continue;
      if (m.future->wait_for(std::chrono::seconds(0)) != dap::future_status::ready) {
        c.fail("the future of an %s request is not ready", m.bad ? "unencodable" : "encodable");
      }
      auto r = m.future->get();
      vs::Quiet q;
      if (bool(r.error) != m.bad) {
        c.fail("the future of an %s request has %s", m.bad ? "unencodable" : "encodable",
               r.error ? "an error" : "no error");
      }
      if (!m.bad && int64_t(r.response.id) != int64_t(m.body.id)) c.fail("wrong response");
    }
    session.reset();
  });
  c.describe(desc + pbt::fmt(" | %d threads, %llu switches", threads, (unsigned long long)vs::switches()));
  c.label("messages", n);
  c.label("unencodable messages", uint64_t(bad));
  c.label("preemptions", vs::preemptions());
  if (bad) c.nontrivial(hash ^ vs::switches() << 24);
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Options o;
  o.name = "c30_session";
  o.rule =
      "A case is a schedule plus 1-6 requests, events and responses, each with "
      "or without unencodable values, sent by 1-3 threads and by handlers. The "
      "wire has exactly the encodable messages complete and an error response "
      "for each unencodable response; the futures and sent handlers agree. "
      "Non-trivial: at least one unencodable message; distinct: messages and "
      "switches.";
  o.property = property;
  o.quickCases = 30000;
  o.thoroughCases = 3000000;
  o.quickCap = 40;
  o.workerInit = [](int) {
    h::warmUp();
    dap::TypeOf<dap::VHReq>::type();
    dap::TypeOf<dap::VHReq2>::type();
    dap::TypeOf<dap::VHRes>::type();
    dap::TypeOf<dap::VHRes2>::type();
    dap::TypeOf<dap::VHEv>::type();
  };
  return pbt::run(argc, argv, o);
}
