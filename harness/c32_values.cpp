// C32: errors, responses-or-errors and the basic types carry their values.
#include "json.h"

#include "dap/session.h"
#include "dap/types.h"

#include <cmath>
#include <cstdarg>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace {
using pbt::Case;

std::string reference(const char* f, ...) {
  va_list a, b;
  va_start(a, f);
  va_copy(b, a);
  int n = vsnprintf(nullptr, 0, f, a);
  std::string s(size_t(n) + 1, 0);
  vsnprintf(&s[0], s.size(), f, b);
  va_end(a);
  va_end(b);
  s.resize(size_t(n));
  return s;
}

size_t genLen(Case& c) {
  switch (c.draw(5)) {
    case 0: return c.draw(20);
    case 1: {
      static const size_t k[] = {127, 128, 255, 256, 511, 512, 1023, 1024, 1025, 2046, 2047, 2048,
                                 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32768, 65535, 65536};
      return k[c.draw(23)];
    }
    case 2: return c.chance(1, 20) ? c.draw(300000) : c.draw(300);
    default: return c.size(9000);
  }
}

std::string genText(Case& c, bool nul) {
  std::string text(genLen(c), char('a' + c.draw(26)));
  for (size_t k = 0; k < std::min<size_t>(text.size(), 24); k++) {
    text[c.flip() ? k : text.size() - 1 - k] = char(nul ? c.draw(256) : 1 + c.draw(255));
  }
  if (c.chance(1, 4) && !text.empty()) text.insert(c.draw(text.size()), c.flip() ? "%s" : "%n%d%%");
  return text;
}

void sameError(Case& c, const dap::Error& e, const std::string& want, const char* where) {
  if (e.message != want) {
    c.fail("%s has a message of %zu bytes (%s) instead of %zu (%s)", where, e.message.size(),
           pbt::esc(e.message, 60).c_str(), want.size(), pbt::esc(want, 60).c_str());
  }
  if (bool(e) != !want.empty()) c.fail("%s with '%s' converts to %d", where, pbt::esc(want, 40).c_str(), int(bool(e)));
}

// Errors from format strings and strings.
std::string errors(Case& c) {
  std::string desc = "error:";
  size_t calls = 1 + c.draw(4);
  for (size_t i = 0; i < calls; i++) {
    std::string text = genText(c, false);
    long long n = (long long)(c.bits());
    int w = int(c.draw(3000));
    double d = double(c.draw(100000)) / 7;
    std::string want;
    dap::Error e;
    sameError(c, e, "", "a default error");
#define CASE(...)                  \
  {                                \
    e = dap::Error(__VA_ARGS__);   \
    want = reference(__VA_ARGS__); \
    break;                         \
  }
    switch (c.draw(11)) {
      case 0: CASE("plain text 100%%\n")
      case 1: CASE("%s", text.c_str())
      case 2: CASE("%lld %s %lld", n, text.c_str(), n)
      case 3: CASE("%*d|%-*d|", w, int(n), w, int(n))
      case 4: CASE("%.*f %g", int(w % 100), d, d)
      case 5: CASE("%c%c%%%x %s", int('a' + (n & 15)), 'z', unsigned(n), text.c_str())
      case 6: CASE("%s%s", text.c_str(), text.c_str())
      case 7: CASE("%.*s!", w, text.c_str())
      case 8: CASE("%s", "")
      case 9:
        // A std::string is not a format string.
        text = genText(c, true);
        e = dap::Error(text);
        want = text;
        break;
      default: CASE("%p %zu %5d", (void*)&c, text.size(), w)
    }
#undef CASE
    sameError(c, e, want, "an error");
    dap::Error copy(e);
    sameError(c, copy, want, "a copied error");
    dap::Error moved(std::move(copy));
    sameError(c, moved, want, "a moved error");
    copy = moved;
    sameError(c, copy, want, "an assigned error");
    sameError(c, e, want, "the source of a copy");
    desc += pbt::fmt(" %zu", want.size());
  }
  return desc;
}

// A response with tracked content.
struct Body {
  int64_t id = 0;
  std::string text;
  std::map<std::string, int> more;
};

struct Model {
  bool unknown = false;  // moved from
  int64_t id = 0;
  std::string text, error;
};

std::string responses(Case& c) {
  using R = dap::ResponseOrError<Body>;
  constexpr size_t N = 4;
  std::vector<std::unique_ptr<R>> slot(N);
  std::vector<Model> model(N);
  for (auto& s : slot) s.reset(new R());
  std::string desc = "r/e:";
  auto body = [&](Model* m) {
    Body b;
    m->id = b.id = int64_t(c.draw(1000)) + 1;
    m->text = b.text = genText(c, true);
    b.more[b.text.substr(0, 5)] = int(b.id);
    return b;
  };
  size_t steps = 1 + c.draw(14);
  for (size_t k = 0; k < steps; k++) {
    size_t i = c.draw(N), j = c.draw(N);
    Model m;
    size_t op = c.draw(11);
    switch (op) {
      case 0: {
        Body b = body(&m);
        slot[i].reset(new R(b));
        if (b.id != m.id || b.text != m.text) c.fail("a response that was copied from has changed");
        model[i] = m;
        break;
      }
      case 1: slot[i].reset(new R(body(&m))); model[i] = m; break;
      case 2: {
        m.error = genText(c, true);
        dap::Error e(m.error);
        slot[i].reset(new R(e));
        sameError(c, e, m.error, "the source of a copy");
        model[i] = m;
        break;
      }
      case 3: m.error = genText(c, true); slot[i].reset(new R(dap::Error(m.error))); model[i] = m; break;
      case 4: {
        std::unique_ptr<R> n(new R(*slot[j]));
        slot[i] = std::move(n);
        model[i] = model[j];
        break;
      }
      case 5: {
        std::unique_ptr<R> n(new R(std::move(*slot[j])));
        m = model[j];
        model[j].unknown = true;
        slot[i] = std::move(n);
        model[i] = m;
        break;
      }
      case 6: *slot[i] = *slot[j]; model[i] = model[j]; break;
      case 7:
        if (i == j) break;
        *slot[i] = std::move(*slot[j]);
        model[i] = model[j];
        model[j].unknown = true;
        break;
      case 8: *slot[i] = body(&m); model[i] = m; break;
      case 9: m.error = genText(c, true); *slot[i] = dap::Error(m.error); model[i] = m; break;
      default: slot[i].reset(new R()); model[i] = m; break;
    }
    desc += pbt::fmt(" %zu:%zu,%zu", op, i, j);
    for (size_t n = 0; n < N; n++) {
      auto& r = *slot[n];
      auto& w = model[n];
      if (w.unknown) continue;
      sameError(c, r.error, w.error, "a response or error");
      if (r.response.id != w.id || r.response.text != w.text ||
          (w.id && r.response.more[w.text.substr(0, 5)] != w.id)) {
        c.fail("a response or error has response %lld instead of %lld", (long long)r.response.id,
               (long long)w.id);
      }
    }
  }
  return desc;
}

int64_t genInt(Case& c) {
  switch (c.draw(4)) {
    case 0: return int64_t(c.draw(10)) - 5;
    case 1: {
      int64_t p = int64_t(uint64_t(1) << c.draw(64));
      return int64_t(uint64_t(p) + c.draw(3) - 1);
    }
    default: return int64_t(c.bits());
  }
}

std::string basics(Case& c) {
  int64_t i = genInt(c), j = genInt(c);
  dap::integer a, b(i);
  if (int64_t(a) != 0) c.fail("a default integer is %lld", (long long)int64_t(a));
  a = i;
  dap::integer d = b;
  if (int64_t(a) != i || int64_t(b) != i || int64_t(d) != i) c.fail("integer %lld is not kept", (long long)i);
  if ((a == dap::integer(j)) != (i == j) || (a < dap::integer(j)) != (i < j)) c.fail("integers %lld, %lld compare wrong", (long long)i, (long long)j);
  if (i != INT64_MAX) {
    int64_t old = int64_t(a++);
    if (old != i || int64_t(a) != i + 1 || int64_t(d) != i) c.fail("%lld++ is %lld, then %lld", (long long)i, (long long)old, (long long)int64_t(a));
  }
  a = j;
  if (int64_t(a) != j) c.fail("integer %lld is not kept", (long long)j);

  uint64_t bits = c.bits();
  double x;
  memcpy(&x, &bits, sizeof(x));
  if (c.flip()) x = double(i) / 8;
  dap::number u, v(x);
  if (double(u) != 0 || std::signbit(double(u))) c.fail("a default number is %g", double(u));
  u = x;
  dap::number w = u;
  for (auto* n : {&u, &v, &w}) {
    double y = double(*n);
    if (!(y == x || (y != y && x != x)) || std::signbit(y) != std::signbit(x)) c.fail("number %.17g is kept as %.17g", x, y);
  }

  bool f = c.flip(), g = c.flip();
  dap::boolean p, q(f);
  if (bool(p)) c.fail("a default boolean is true");
  p = f;
  dap::boolean r = p;
  if (bool(p) != f || bool(q) != f || bool(r) != f) c.fail("boolean %d is not kept", int(f));
  p = g;
  if (bool(p) != g || bool(r) != f) c.fail("boolean %d is not kept", int(g));
  return pbt::fmt("basics: %lld %lld %g %d %d", (long long)i, (long long)j, x, int(f), int(g));
}

void property(Case& c) {
  std::string desc;
  switch (c.draw(5)) {
    case 0:
    case 1: desc = errors(c); c.label("errors"); break;
    case 2:
    case 3: desc = responses(c); c.label("responses or errors"); break;
    default: desc = basics(c); c.label("basic types");
  }
  c.describe(desc);
  c.nontrivial(desc);
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Options o;
  o.name = "c32_values";
  o.rule =
      "A case is 1-4 errors from format strings and strings (to 300000 bytes, any "
      "byte, conversions in the text), or a history of 1-14 constructions, copies, "
      "moves and assignments of 4 responses-or-errors, or basic values of every "
      "magnitude; compared with vsnprintf and a model after each step. All are "
      "non-trivial; distinct: lengths, operations or values.";
  o.property = property;
  o.quickCases = 400000;
  o.thoroughCases = 40000000;
  o.quickCap = 40;
  return pbt::run(argc, argv, o);
}
