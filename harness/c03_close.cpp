// C03: close mode closes the stream at the first malformed frame header.
#include "frames.h"

#include "content_stream.h"
#include "dap/protocol.h"
#include "dap/session.h"

static void property(pbt::Case& c) {
  bool viaSession = c.draw(3) == 2;
  std::vector<std::string> expect;
  std::string stream;
  int id = 0;
  auto body = [&] {
    id++;
    if (!viaSession) return h::anyBody(c);
    return pbt::fmt(
        "{\"seq\":%d,\"type\":\"event\",\"event\":\"exited\",\"body\":{"
        "\"exitCode\":%d}}",
        id, id);
  };
  size_t n = c.draw(4);
  for (size_t i = 0; i < n; i++) {
    auto b = body();
    stream += h::anyFrame(c, b);
    expect.push_back(b);
  }
  // The deviation.
  std::string kind;
  std::string bad;
  bool frameFollows = false;
  switch (c.draw(4)) {
    case 0:
      bad = h::malformedHeader(c, &kind);
      // End with a byte that cannot continue the header, unless a frame follows.
      if (c.flip()) {
        bad += "#";
      } else {
        frameFollows = true;
      }
      break;
    case 1: {
      kind = "garbage";
      bad = h::garbage(c);
      // A prefix of a header is no deviation yet: make sure there is one.
      if (std::string(h::kPrefix).compare(0, bad.size(), bad) == 0) bad += "#";
      break;
    }
    case 2: {
      // One mutated, inserted or dropped byte in the header of a frame.
      auto b = body();
      std::string f = h::frame(b);
      size_t head = f.size() - b.size();
      size_t fixed = strlen(h::kPrefix);
      // Not within the blanks or digits, where the result may be well-formed.
      size_t pos = c.draw(fixed + 4);
      if (pos >= fixed) pos = head - 4 + (pos - fixed);
      switch (c.draw(3)) {
        case 0:
          kind = "mutated header byte";
          f[pos] = char(f[pos] ^ char(1 + c.draw(255)));
          break;
        case 1: {
          kind = "inserted header byte";
          char x = char(c.draw(256));
          // An inserted byte that repeats its neighbour is the same as one
          // inserted later; digits before CR, and blanks, are well-formed.
          if (pos == head - 4 && x >= '0' && x <= '9') x = 'x';
          f.insert(f.begin() + pos, x);
          break;
        }
        default:
          kind = "dropped header byte";
          f.erase(f.begin() + pos);
      }
      // Is it still a frame? (e.g. a mutated CR that is a digit)
      {
        size_t p = 0;
        bool ok = f.compare(0, fixed, h::kPrefix) == 0;
        if (ok) {
          p = fixed;
          while (p < f.size() && (f[p] == ' ' || f[p] == '\t')) p++;
          size_t d = p;
          while (p < f.size() && f[p] >= '0' && f[p] <= '9') p++;
          ok = p > d && f.compare(p, 4, "\r\n\r\n") == 0;
          // A header that lacks its end may be completed by the body.
        }
        if (ok) f = "X" + f;
      }
      bad = f;
      break;
    }
    default: {
      kind = "http request";
      bad = "POST / HTTP/1.1\r\nHost: localhost\r\nContent-Length: 99\r\n\r\n";
    }
  }
  c.label(kind.c_str());
  stream += bad;
  // An arbitrary continuation, most of it well-formed.
  size_t m = c.draw(5);
  if (frameFollows && m == 0) m = 1;
  for (size_t i = 0; i < m; i++) {
    switch (i == 0 && frameFollows ? 0 : c.draw(3)) {
      case 2:
        stream += h::garbage(c);
        break;
      default:
        stream += h::anyFrame(c, body());
    }
  }
  auto plan = h::chunkPlan(c);
  auto in = std::make_shared<h::ChunkReader>(stream, plan);
  if (c.wantDescription()) {
    std::string d =
        pbt::fmt("via=%s frames=%zu deviation=%s followed by %zu\nchunks=",
                 viaSession ? "session" : "reader", n, kind.c_str(), m);
    for (auto p : plan) d += std::to_string(p) + ",";
    d += " stream=" + pbt::esc(stream, 900);
    c.describe(d);
  }
  if (viaSession) {
    c.label("through a session");
    auto session = dap::Session::create();
    int got = 0;
    session->registerHandler([&](const dap::ExitedEvent& e) {
      got++;
      if (int(e.exitCode) != got) {
        c.fail("event %d dispatched as number %d", int(e.exitCode), got);
      }
    });
    session->setOnInvalidData(dap::kClose);
    auto out = std::make_shared<h::BufferWriter>();
    session->connect(in, out);
    for (size_t i = 0; i < n; i++) {
      if (auto p = session->getPayload()) p();
    }
    if (got != int(n)) {
      c.fail("%d of %zu events before the deviation dispatched", got, n);
    }
    if (in->closed) c.fail("closed before the deviation");
    for (size_t i = 0; i < m + 4; i++) {
      if (auto p = session->getPayload()) p();
      if (i == 0 && !in->closed) {
        c.fail("the reader was not closed at the deviation");
      }
    }
    if (got != int(n)) {
      c.fail("%d event(s) after the deviation dispatched", got - int(n));
    }
  } else {
    dap::ContentReader r(in, dap::kClose);
    for (size_t i = 0; i < n; i++) {
      auto got = r.read();
      if (got != expect[i]) {
        c.fail("message %zu before the deviation is '%s', expected '%s'", i,
               pbt::esc(got, 300).c_str(), pbt::esc(expect[i], 300).c_str());
      }
      if (in->closed) c.fail("closed before the deviation");
    }
    for (size_t i = 0; i < m + 4; i++) {
      auto got = r.read();
      if (!got.empty()) {
        c.fail("delivered '%s' after the deviation",
               pbt::esc(got, 300).c_str());
      }
      if (!in->closed) c.fail("the reader was not closed at the deviation");
      if (r.isOpen()) c.fail("still open after the deviation");
    }
  }
  if (m > 0) c.nontrivial(stream);
}

int main(int argc, char** argv) {
  pbt::Options o;
  o.name = "c03_close";
  o.rule =
      "0-3 well-formed frames, one deviation (malformed header, garbage, "
      "mutated/inserted/dropped header byte, HTTP request) and 0-4 further "
      "frames or garbage, read in generated chunks by a framing reader or a "
      "session in close mode; non-trivial: something follows the deviation";
  o.property = property;
  o.quickCases = 2000000;
  o.thoroughCases = 40000000;
  return pbt::run(argc, argv, o);
}
