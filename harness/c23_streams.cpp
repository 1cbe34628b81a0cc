// C23: file, spy, composite and formatted streams pass bytes through unchanged.
#include "frames.h"
#include "streams.h"

#include <stdio.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <unistd.h>

namespace {
using namespace h;
using pbt::Case;

////////////////////////////////////////////////////////////////////////////////
// A FILE in memory, that counts its closes and can fail.
////////////////////////////////////////////////////////////////////////////////
struct Mem {
  std::string data;
  size_t pos = 0;
  int closes = 0;
  int64_t room = -1;   // bytes that can still be written, -1: any
  size_t chunk = 0;    // bytes per read, 0: any
  FILE* f = nullptr;

  static ssize_t rd(void* c, char* buf, size_t n) {
    auto m = static_cast<Mem*>(c);
    n = std::min(n, m->data.size() - m->pos);
    if (m->chunk) n = std::min(n, m->chunk);
    memcpy(buf, m->data.data() + m->pos, n);
    m->pos += n;
    return ssize_t(n);
  }
  static ssize_t wr(void* c, const char* buf, size_t n) {
    auto m = static_cast<Mem*>(c);
    if (m->room >= 0) {
      n = std::min(n, size_t(m->room));
      m->room -= int64_t(n);
      if (n == 0) {
        errno = ENOSPC;
        return 0;
      }
    }
    m->data.append(buf, n);
    return ssize_t(n);
  }
  static int cl(void* c) {
    static_cast<Mem*>(c)->closes++;
    return 0;
  }
  FILE* open(const char* mode) {
    cookie_io_functions_t io = {rd, wr, nullptr, cl};
    f = fopencookie(this, mode, io);
    return f;
  }
};

std::string blob(Case& c) {
  switch (c.draw(5)) {
    case 0: return "";
    case 1: return c.bytes(1 + c.draw(8));
    case 2: return std::string(1 + c.draw(20), char(c.draw(256)));
    case 3: return anyBody(c);
    default: return c.bytes(c.chance(1, 60) ? c.draw(200000) : c.size(9000));
  }
}

void fileWrite(Case& c) {
  Mem m;
  bool closable = c.flip();
  bool failing = c.chance(1, 3);
  if (failing) m.room = int64_t(c.draw(3000));
  FILE* f = m.open("w");
  // glibc does not report a failed flush of a line.
  if (c.flip()) setvbuf(f, nullptr, failing || c.flip() ? _IONBF : _IOLBF, 0);
  std::string want;
  bool closed = false, failed = false, copyHeld = c.flip();
  std::string desc = closable ? "closable:" : "not closable:";
  std::shared_ptr<dap::ReaderWriter> s = closable && c.flip() ? dap::file(f) : dap::file(f, closable);
  std::shared_ptr<dap::ReaderWriter> other;
  if (copyHeld) other = s;
  size_t n = 1 + c.draw(8);
  for (size_t i = 0; i < n; i++) {
    if (c.chance(1, 6)) {
      s->close();
      desc += " close";
      if (closable) closed = true;
      if (m.closes != (closable ? 1 : 0)) {
        c.fail("after close() the %s file was closed %d times",
               closable ? "closable" : "not closable", m.closes);
      }
      if (!closable) break;  // whether it still takes writes is not specified
      if (s->isOpen()) c.fail("a closed file is open");
      continue;
    }
    if (!closed && !s->isOpen()) c.fail("a file that was not closed is not open");
    std::string b = blob(c);
    desc += pbt::fmt(" write %zu", b.size());
    int64_t room = m.room;
    bool ok = s->write(b.data(), b.size());
    if (closed) {
      if (ok && !b.empty()) c.fail("a write to a closed file succeeds");
    } else if (failing) {
      bool fits = room >= int64_t(b.size());
      if (failed) break;
      if (ok && !fits) c.fail("a write of %zu bytes succeeds, although the file took only %lld", b.size(), (long long)room);
      if (!ok && fits) c.fail("a write of %zu bytes fails", b.size());
      if (!ok) {
        failed = true;
        break;
      }
      want += b;
    } else {
      if (!ok) c.fail("a write of %zu bytes fails", b.size());
      want += b;
    }
    if (m.data != want) {
      c.fail("after the write the file has %zu bytes instead of %zu", m.data.size(), want.size());
    }
  }
  s.reset();
  other.reset();
  if (m.closes != (closable ? 1 : 0)) {
    c.fail("at the end the %s file was closed %d times", closable ? "closable" : "not closable",
           m.closes);
  }
  if (!closable) {
    if (!failing) {
      if (fputs("tail", f) < 0 || fflush(f) != 0) c.fail("the file is not usable any more");
      want += "tail";
    }
    fclose(f);
  }
  if (!failed && m.data != want) c.fail("at the end the file has other bytes");
  c.describe(desc);
  c.label(failing ? "file write with faults" : "file write");
  c.nontrivial(desc);
}

void fileRead(Case& c) {
  Mem m;
  size_t parts = 1 + c.draw(3);
  for (size_t i = 0; i < parts; i++) m.data += blob(c);
  std::string all = m.data;
  m.chunk = c.flip() ? 0 : 1 + c.draw(50);
  bool closable = c.flip();
  FILE* f = m.open("r");
  auto s = dap::file(f, closable);
  std::string got;
  bool closed = false;
  size_t reads = 0;
  std::string desc = "read:";
  size_t limit = c.chance(1, 4) ? 10 : 300;
  while (true) {
    if (c.chance(1, 30)) {
      s->close();
      closed = closable;
      if (m.closes != int(closed)) c.fail("after close() the file was closed %d times", m.closes);
      if (!closable) break;
    }
    size_t k = 1 + c.size(limit);
    std::vector<char> buf(k);
    size_t n = s->read(buf.data(), k);
    desc += pbt::fmt(" %zu", n);
    reads++;
    if (n > k) c.fail("read() of %zu bytes returns %zu", k, n);
    if (closed) {
      if (n != 0) c.fail("a closed file returns %zu bytes", n);
      break;
    }
    if (n == 0 && got.size() < all.size()) c.fail("the file ends after %zu of %zu bytes", got.size(), all.size());
    got.append(buf.data(), n);
    if (all.compare(0, got.size(), got) != 0 || got.size() > all.size()) {
      c.fail("the file is read as other bytes");
    }
    if (n == 0) break;
    if (got.size() < all.size() && !s->isOpen()) c.fail("a file that was not closed is not open");
  }
  s.reset();
  if (m.closes != int(closable)) c.fail("at the end the file was closed %d times", m.closes);
  if (!closable) fclose(f);
  if (c.wantDescription()) c.describe(desc.substr(0, 200));
  c.label("file read");
  if (reads > 1) c.nontrivial(desc);
}

void path(Case& c) {
  char dir[] = "/tmp/verif-c23-XXXXXX";
  if (!mkdtemp(dir)) return;
  std::string p = std::string(dir) + "/f";
  bool exists = c.flip();
  if (exists) {
    FILE* f = fopen(p.c_str(), "wb");
    fputs("old content that is longer", f);
    fclose(f);
  }
  std::string want;
  {
    auto s = dap::file(p.c_str());
    if (!s) c.fail("the file cannot be created");
    size_t n = c.draw(4);
    for (size_t i = 0; i < n; i++) {
      std::string b = blob(c);
      if (!s->write(b.data(), b.size())) c.fail("a write fails");
      want += b;
    }
    if (c.flip()) {
      s->close();
      if (s->write("x", 1)) c.fail("a write to a closed file succeeds");
    }
  }
  std::string got;
  if (FILE* f = fopen(p.c_str(), "rb")) {
    auto s = dap::file(f);
    char buf[97];
    while (size_t n = s->read(buf, sizeof(buf))) got.append(buf, n);
  }
  bool missing = dap::file((std::string(dir) + "/no/such").c_str()) != nullptr;
  unlink(p.c_str());
  rmdir(dir);
  if (got != want) c.fail("the file has %zu bytes instead of %zu", got.size(), want.size());
  if (missing) c.fail("a file in a missing directory is opened");
  c.label("file by path");
  c.nontrivial(want);
}

////////////////////////////////////////////////////////////////////////////////
// Spies and composites
////////////////////////////////////////////////////////////////////////////////

// A stream that records what it is asked to do, with generated results.
struct Probe : public dap::ReaderWriter {
  std::string input;
  std::vector<size_t> plan;
  size_t pos = 0, step = 0;
  std::string written;
  int closes = 0, opens = 0;
  bool open = true;
  std::vector<bool> fails;  // per write
  size_t writes = 0;
  std::string log;

  bool isOpen() override {
    opens++;
    return open;
  }
  void close() override {
    closes++;
    open = false;
    log += "c";
  }
  size_t read(void* buffer, size_t n) override {
    log += pbt::fmt("r%zu", n);
    if (!open) return 0;
    size_t k = plan.empty() ? n : plan[step++ % plan.size()];
    k = std::min({k, n, input.size() - pos});
    memcpy(buffer, input.data() + pos, k);
    pos += k;
    return k;
  }
  bool write(const void* buffer, size_t n) override {
    log += pbt::fmt("w%zu", n);
    bool fail = !open || (!fails.empty() && fails[writes % fails.size()]);
    writes++;
    if (fail) return false;
    written.append(static_cast<const char*>(buffer), n);
    return true;
  }
};

std::shared_ptr<Probe> probe(Case& c, size_t size) {
  auto p = std::make_shared<Probe>();
  p->input = c.bytes(size);
  p->plan = chunkPlan(c);
  if (c.chance(1, 3)) p->plan.push_back(0);  // a read without data
  if (c.chance(1, 2)) {
    size_t n = 1 + c.draw(4);
    for (size_t i = 0; i < n; i++) p->fails.push_back(c.chance(1, 3));
  }
  return p;
}

void spies(Case& c) {
  bool large = c.chance(1, 30);
  size_t size = large ? 5000 + c.draw(200000) : c.size(2000);
  auto p = probe(c, size);
  if (large && c.flip()) p->plan.clear();
  auto q = std::make_shared<Probe>();  // the reference
  *q = *p;
  auto log = std::make_shared<Probe>();
  bool deadSpy = c.chance(1, 8);  // a spy that does not take anything
  if (deadSpy) log->open = false;
  static const std::vector<std::string> prefixes = {"", "\n->", "%s%n", "prefix: ", "x"};
  bool deflt = c.chance(1, 5);
  std::string prefix = c.pick(prefixes);
  std::shared_ptr<dap::Reader> pr = p;
  std::shared_ptr<dap::Writer> pw = p;
  auto r = deflt ? dap::spy(pr, log) : dap::spy(pr, log, prefix.c_str());
  auto w = deflt ? dap::spy(pw, log) : dap::spy(pw, log, prefix.c_str());
  std::string want, desc = "spy:";
  size_t steps = 1 + c.draw(10);
  for (size_t i = 0; i < steps; i++) {
    switch (c.draw(8)) {
      case 0:
        if (c.chance(1, 3)) {
          r->close();
          q->close();
        } else if (c.chance(1, 3)) {
          w->close();
          q->close();
        }
        break;
      case 1:
        if (r->isOpen() != q->open || w->isOpen() != q->open) c.fail("isOpen() of a spy differs from the stream");
        break;
      case 2:
      case 3:
      case 4: {
        size_t n = 1 + (large ? c.draw(150000) : c.size(300));
        std::vector<char> a(n, 'Z'), b(n, 'Z');
        size_t x = r->read(a.data(), n), y = q->read(b.data(), n);
        if (x != y || a != b) c.fail("a read through a spy returns %zu bytes instead of %zu, or others", x, y);
        if (x > 0) want += (deflt ? "\n->" : prefix) + std::string(a.data(), x);
        desc += pbt::fmt(" r%zu", x);
        break;
      }
      default: {
        std::string b = c.bytes(large ? c.draw(150000) : c.size(400));
        bool x = w->write(b.data(), b.size()), y = q->write(b.data(), b.size());
        if (x != y) c.fail("a write through a spy returns %d", int(x));
        if (y) want += (deflt ? "\n<-" : prefix) + b;
        desc += pbt::fmt(" w%zu=%d", b.size(), int(y));
      }
    }
    if (p->log != q->log) c.fail("the stream got the calls %s instead of %s", p->log.c_str(), q->log.c_str());
    if (p->written != q->written) c.fail("the stream got other bytes");
  }
  if (!deadSpy && log->written != want) {
    c.fail("the spy got %s instead of %s", pbt::esc(log->written, 300).c_str(), pbt::esc(want, 300).c_str());
  }
  if (log->closes) c.fail("the spy's writer was closed");
  c.describe(desc);
  c.label("spy");
  if (steps > 2) c.nontrivial(desc);
}

void composite(Case& c) {
  auto a = probe(c, c.size(1000)), b = probe(c, 0);
  auto ra = std::make_shared<Probe>(), rb = std::make_shared<Probe>();
  *ra = *a;
  *rb = *b;
  auto s = dap::ReaderWriter::create(a, b);
  std::string desc = "composite:";
  size_t steps = 1 + c.draw(12);
  for (size_t i = 0; i < steps; i++) {
    switch (c.draw(9)) {
      case 0:
        a->open = ra->open = false;  // the reader ends by itself
        desc += " rend";
        break;
      case 1:
        b->open = rb->open = false;
        desc += " wend";
        break;
      case 2:
        a->open = ra->open = true;
        b->open = rb->open = true;
        break;
      case 3: {
        int x = a->closes, y = b->closes;
        s->close();
        if (a->closes != x + 1 || b->closes != y + 1) c.fail("close() closes the halves %d and %d times", a->closes - x, b->closes - y);
        ra->close();
        rb->close();
        desc += " close";
        break;
      }
      case 4:
      case 5: {
        size_t n = 1 + c.size(300);
        std::vector<char> u(n, 'Z'), v(n, 'Z');
        size_t x = s->read(u.data(), n), y = ra->read(v.data(), n);
        if (x != y || u != v) c.fail("a read through a composite returns %zu bytes instead of %zu, or others", x, y);
        desc += " r";
        break;
      }
      default: {
        std::string t = c.bytes(c.size(400));
        bool x = s->write(t.data(), t.size()), y = rb->write(t.data(), t.size());
        if (x != y) c.fail("a write through a composite returns %d", int(x));
        desc += " w";
      }
    }
    if (s->isOpen() != (a->open && b->open)) c.fail("isOpen() is %d with halves %d and %d", int(s->isOpen()), int(a->open), int(b->open));
    if (a->log != ra->log || b->log != rb->log) c.fail("the halves got other calls");
    if (b->written != rb->written) c.fail("the writer got other bytes");
  }
  c.describe(desc);
  c.label("composite");
  if (steps > 2) c.nontrivial(desc);
}

////////////////////////////////////////////////////////////////////////////////
// writef
////////////////////////////////////////////////////////////////////////////////
std::string reference(const char* f, ...) {
  va_list a, b;
  va_start(a, f);
  va_copy(b, a);
  int n = vsnprintf(nullptr, 0, f, a);
  std::string s(size_t(n) + 1, 0);
  vsnprintf(&s[0], s.size(), f, b);
  va_end(a);
  va_end(b);
  s.resize(size_t(n));
  return s;
}

void formatted(Case& c) {
  auto p = std::make_shared<Probe>();
  bool closed = c.chance(1, 8);
  p->open = !closed;
  std::string want;
  size_t calls = 1 + c.draw(4);
  std::string desc = "writef:";
  for (size_t i = 0; i < calls; i++) {
    size_t len;
    switch (c.draw(4)) {
      case 0: len = c.draw(20); break;
      case 1: {
        static const size_t k[] = {127, 128, 255, 256, 511, 512, 1023, 1024, 2046, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 65535, 65536};
        len = k[c.draw(19)];
        break;
      }
      default: len = c.size(9000);
    }
    std::string text(len, 'a');
    for (size_t k = 0; k < std::min<size_t>(len, 40); k++) text[k] = char(1 + c.draw(255));
    long long n = (long long)(c.bits());
    int w = int(c.draw(3000));
    double d = double(c.draw(100000)) / 7;
    bool ok = false;
    std::string s;
#define CASE(...)                 \
  {                               \
    ok = dap::writef(p, __VA_ARGS__); \
    s = reference(__VA_ARGS__);   \
    break;                        \
  }
    switch (c.draw(9)) {
      case 0: CASE("plain text 100%%\n")
      case 1: CASE("%s", text.c_str())
      case 2: CASE("%lld %s %lld", n, text.c_str(), n)
      case 3: CASE("%*d|%-*d|", w, int(n), w, int(n))
      case 4: CASE("%.*f %g", int(w % 100), d, d)
      case 5: CASE("%c%c%%%x %s", int('a' + n % 20), 'z', unsigned(n), text.c_str())
      case 6: CASE("%s%s", text.c_str(), text.c_str())
      case 7: CASE("%.*s!", w, text.c_str())
      default: CASE("%p %zu %5d", (void*)p.get(), len, w)
    }
#undef CASE
    if (closed ? ok && !s.empty() : !ok) c.fail("writef returns %d on a %s writer", int(ok), closed ? "closed" : "open");
    if (!closed) want += s;
    desc += pbt::fmt(" %zu", s.size());
    if (p->written != want) {
      c.fail("after writef the writer has %zu bytes instead of %zu: %s", p->written.size(),
             want.size(), pbt::esc(p->written, 200).c_str());
    }
  }
  c.describe(desc);
  c.label("writef");
  c.nontrivial(desc);
}

void property(Case& c) {
  pbt::leakCheck(c, [&] {
    switch (c.weighted({5, 4, 4, 4, 4, 1})) {
      case 0: fileWrite(c); break;
      case 1: fileRead(c); break;
      case 2: spies(c); break;
      case 3: composite(c); break;
      case 4: formatted(c); break;
      default: path(c);
    }
  });
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Options o;
  o.name = "c23_streams";
  o.rule =
      "A case is a history of calls on a file stream (over a FILE in memory that "
      "counts closes, transfers in pieces and runs full; or a scratch file), on "
      "reader and writer spies, on a composite of two recording streams, or "
      "generated writef calls (to 130000 bytes); results, bytes and calls of the "
      "wrapped stream are compared with a reference after each step. Non-trivial: "
      "more than one or two calls; distinct: by the calls.";
  o.property = property;
  o.quickCases = 600000;
  o.thoroughCases = 10000000;
  o.quickCap = 30;
  return pbt::run(argc, argv, o);
}
