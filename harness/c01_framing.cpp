// C01: framed messages survive any chunking of the byte stream.
#include "frames.h"

#include "content_stream.h"

static void property(pbt::Case& c) {
  auto mode = c.flip() ? dap::kClose : dap::kIgnore;
  size_t n = 1 + c.draw(6);
  if (c.chance(1, 500)) n = 1 + c.draw(400);
  std::vector<std::string> bodies;
  auto out = std::make_shared<h::BufferWriter>();
  std::string expectWire;
  size_t total = 0;
  {
    dap::ContentWriter w(out);
    dap::ContentWriter moved;
    moved = std::move(w);
    for (size_t i = 0; i < n; i++) {
      auto b = h::anyBody(c);
      if (!moved.write(b)) c.fail("write of %zu bytes failed", b.size());
      expectWire += h::frame(b);
      total += b.size();
      bodies.push_back(std::move(b));
    }
  }
  if (out->data != expectWire) {
    c.fail("wire is '%s', expected '%s'", pbt::esc(out->data, 600).c_str(),
           pbt::esc(expectWire, 600).c_str());
  }
  // The stream may end within the last frame.
  std::string wire = out->data;
  bool truncated = c.chance(1, 3);
  if (truncated) {
    size_t last = h::frame(bodies.back()).size();
    size_t cut = 1 + c.draw(last);
    wire.resize(wire.size() - cut);
    bodies.pop_back();
  }
  auto plan = h::chunkPlan(c);
  auto in = std::make_shared<h::ChunkReader>(wire, plan);
  if (c.wantDescription()) {
    std::string d = pbt::fmt("mode=%s truncated=%d chunks=",
                             mode == dap::kClose ? "close" : "ignore",
                             truncated);
    for (auto p : plan) d += std::to_string(p) + ",";
    d += " stream=" + pbt::esc(wire, 700);
    c.describe(d);
  }
  dap::ContentReader first(in, mode);
  dap::ContentReader r;
  r = std::move(first);
  for (size_t i = 0; i < bodies.size(); i++) {
    if (!r.isOpen()) c.fail("reader closed before message %zu", i);
    auto got = r.read();
    if (got != bodies[i]) {
      c.fail("message %zu of %zu: got %zu bytes '%s', expected %zu bytes '%s'",
             i, bodies.size(), got.size(), pbt::esc(got, 300).c_str(),
             bodies[i].size(), pbt::esc(bodies[i], 300).c_str());
    }
  }
  for (int i = 0; i < 3; i++) {
    auto got = r.read();
    if (!got.empty()) {
      c.fail("message '%s' read after the end of the stream",
             pbt::esc(got, 300).c_str());
    }
  }
  if (n >= 2 && in->splits > 0) {
    c.nontrivial(pbt::hashStr(wire, in->splits * 2 + mode));
  }
  if (truncated) c.label("truncated");
  if (mode == dap::kClose) c.label("close mode");
  if (in->splits) c.label("split reads");
  if (total > 256) c.label("more than 256 bytes");
  if (total > 4096) c.label("more than 4096 bytes");
}

int main(int argc, char** argv) {
  pbt::Options o;
  o.name = "c01_framing";
  o.rule =
      "sequences of 1-6 (rarely 400) bodies (binary, header look-alikes, sizes around "
      "buffer boundaries, to 70000 bytes, rarely 16 MB) written by the framing writer, read back "
      "through a generated chunking in either mode, optionally truncated within "
      "the last frame; non-trivial: at least two bodies and at least one read "
      "returned fewer bytes than asked for";
  o.property = property;
  o.quickCases = 1200000;
  o.thoroughCases = 40000000;
  return pbt::run(argc, argv, o);
}
