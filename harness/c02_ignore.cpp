// C02: ignore mode skips garbage and loses no well-formed message.
#include "frames.h"

#include "content_stream.h"
#include "dap/protocol.h"
#include "dap/session.h"

static void property(pbt::Case& c) {
  std::string stream;
  std::vector<std::string> expect;
  size_t nGarbage = 0, nBad = 0;
  bool frames = false, viaSession = c.draw(6) == 5;
  std::string desc;
  size_t n = 1 + c.draw(10);
  bool lastGarbage = false, lastBad = false;
  int id = 0;
  std::vector<int> expectIds;
  for (size_t i = 0; i < n; i++) {
    switch (c.draw(4)) {
      case 0:
      case 1: {
        std::string body;
        if (viaSession) {
          id++;
          body = pbt::fmt(
              "{\"seq\":%d,\"type\":\"event\",\"event\":\"exited\",\"body\":{"
              "\"exitCode\":%d}}",
              id, id);
          expectIds.push_back(id);
        } else {
          body = h::anyBody(c);
        }
        stream += h::anyFrame(c, body);
        expect.push_back(body);
        frames = true;
        lastGarbage = lastBad = false;
        desc += " frame";
        break;
      }
      case 2: {
        auto g = h::garbage(c);
        // Two pieces of garbage must not form a header prefix, and garbage must
        // not complete a malformed header.
        if (lastGarbage || lastBad) g = "#" + g;
        stream += g;
        lastGarbage = true;
        lastBad = false;
        nGarbage++;
        desc += " garbage";
        break;
      }
      default: {
        std::string kind;
        if (lastGarbage) stream += "#";
        stream += h::malformedHeader(c, &kind);
        // May be followed by another header right away.
        if (c.flip()) stream += "#";
        lastGarbage = false;
        lastBad = true;
        nBad++;
        c.label(("malformed: " + kind).c_str());
        desc += " malformed(" + kind + ")";
      }
    }
  }
  auto plan = h::chunkPlan(c);
  auto in = std::make_shared<h::ChunkReader>(stream, plan);
  if (c.wantDescription()) {
    std::string d = pbt::fmt("via=%s segments:%s\nchunks=",
                             viaSession ? "session" : "reader", desc.c_str());
    for (auto p : plan) d += std::to_string(p) + ",";
    d += " stream=" + pbt::esc(stream, 900);
    c.describe(d);
  }
  if (viaSession) {
    c.label("through a session");
    auto session = dap::Session::create();
    std::vector<int> got;
    std::vector<std::string> errors;
    session->onError([&](const char* m) { errors.push_back(m); });
    session->registerHandler(
        [&](const dap::ExitedEvent& e) { got.push_back(int(e.exitCode)); });
    auto out = std::make_shared<h::BufferWriter>();
    session->connect(in, out);
    for (size_t i = 0; i < 3 * n + 40 && in->ends == 0; i++) {
      if (auto p = session->getPayload()) p();
    }
    if (got != expectIds) {
      std::string s;
      for (auto g : got) s += std::to_string(g) + ",";
      c.fail("the session dispatched events %s expected %zu in order",
             s.c_str(), expectIds.size());
    }
    if (!errors.empty()) {
      c.fail("error reported for a well-formed message: %s",
             errors[0].c_str());
    }
  } else {
    dap::ContentReader r(in);
    std::vector<std::string> got;
    size_t empty = 0;
    while (empty < 3 * n + 40) {
      auto m = r.read();
      if (m.empty()) {
        if (in->ends > 0 && empty > 3 * n) break;
        empty++;
      } else {
        got.push_back(m);
        if (got.size() > expect.size()) break;
      }
    }
    for (size_t i = 0; i < std::max(got.size(), expect.size()); i++) {
      if (i >= got.size()) {
        c.fail("well-formed message %zu of %zu was not delivered: '%s'", i,
               expect.size(), pbt::esc(expect[i], 300).c_str());
      }
      if (i >= expect.size()) {
        c.fail("delivered '%s', which was not framed",
               pbt::esc(got[i], 300).c_str());
      }
      if (got[i] != expect[i]) {
        c.fail("message %zu is '%s', expected '%s'", i,
               pbt::esc(got[i], 300).c_str(),
               pbt::esc(expect[i], 300).c_str());
      }
    }
    if (in->closes) c.fail("the reader was closed in ignore mode");
  }
  if (nGarbage) c.label("garbage");
  if (nBad) c.label("malformed header");
  if (frames && (nGarbage || nBad)) c.nontrivial(stream);
}

int main(int argc, char** argv) {
  pbt::Options o;
  o.name = "c02_ignore";
  o.rule =
      "streams of 1-10 segments: well-formed frames, garbage without a header "
      "prefix, malformed headers (missing/zero/overflowing length, deviating "
      "terminator), read in generated chunks by the framing reader or a "
      "session; non-trivial: at least one frame and one garbage or malformed "
      "segment";
  o.property = property;
  o.quickCases = 1200000;
  o.thoroughCases = 40000000;
  return pbt::run(argc, argv, o);
}
