// A strict JSON reader and a flexible JSON writer, independent of the code
// under test.
#pragma once

#include "pbt.h"

#include <errno.h>
#include <math.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <utility>
#include <vector>

namespace h {

struct J {
  enum Kind { Null, Bool, Int, Num, Str, Arr, Obj };
  Kind kind = Null;
  bool b = false;
  int64_t i = 0;
  double d = 0;
  bool big = false;  // an integer that does not fit int64_t (d has its value)
  std::string s;
  std::vector<J> a;
  std::vector<std::pair<std::string, J>> o;

  static J null() { return J(); }
  static J boolean(bool v) {
    J j;
    j.kind = Bool;
    j.b = v;
    return j;
  }
  static J integer(int64_t v) {
    J j;
    j.kind = Int;
    j.i = v;
    return j;
  }
  static J number(double v) {
    J j;
    j.kind = Num;
    j.d = v;
    return j;
  }
  static J str(const std::string& v) {
    J j;
    j.kind = Str;
    j.s = v;
    return j;
  }
  static J arr() {
    J j;
    j.kind = Arr;
    return j;
  }
  static J obj() {
    J j;
    j.kind = Obj;
    return j;
  }
  J& add(const std::string& k, const J& v) {
    o.emplace_back(k, v);
    return *this;
  }
  J& push(const J& v) {
    a.push_back(v);
    return *this;
  }
  // The last member with this key, or nullptr.
  const J* get(const std::string& k) const {
    if (kind != Obj) return nullptr;
    for (size_t n = o.size(); n-- > 0;) {
      if (o[n].first == k) return &o[n].second;
    }
    return nullptr;
  }
  J* get(const std::string& k) {
    return const_cast<J*>(static_cast<const J*>(this)->get(k));
  }
  bool isStr(const std::string& k, const std::string& v) const {
    auto j = get(k);
    return j && j->kind == Str && j->s == v;
  }
};

// Equal as JSON values; object members in any order.
inline bool same(const J& x, const J& y) {
  if (x.kind != y.kind) {
    return false;
  }
  switch (x.kind) {
    case J::Null:
      return true;
    case J::Bool:
      return x.b == y.b;
    case J::Int:
      return x.big == y.big && (x.big ? x.d == y.d : x.i == y.i);
    case J::Num:
      return x.d == y.d && signbit(x.d) == signbit(y.d);
    case J::Str:
      return x.s == y.s;
    case J::Arr:
      if (x.a.size() != y.a.size()) return false;
      for (size_t n = 0; n < x.a.size(); n++) {
        if (!same(x.a[n], y.a[n])) return false;
      }
      return true;
    case J::Obj:
      if (x.o.size() != y.o.size()) return false;
      for (auto& kv : x.o) {
        auto j = y.get(kv.first);
        if (!j || !same(kv.second, *j)) return false;
      }
      return true;
  }
  return false;
}

inline void utf8(std::string& out, uint32_t c) {
  if (c < 0x80) {
    out += char(c);
  } else if (c < 0x800) {
    out += char(0xC0 | (c >> 6));
    out += char(0x80 | (c & 63));
  } else if (c < 0x10000) {
    out += char(0xE0 | (c >> 12));
    out += char(0x80 | ((c >> 6) & 63));
    out += char(0x80 | (c & 63));
  } else {
    out += char(0xF0 | (c >> 18));
    out += char(0x80 | ((c >> 12) & 63));
    out += char(0x80 | ((c >> 6) & 63));
    out += char(0x80 | (c & 63));
  }
}

// Length of the valid UTF-8 sequence at s[i], or 0.
inline size_t utf8Len(const std::string& s, size_t i) {
  auto at = [&](size_t k) -> unsigned {
    return k < s.size() ? (unsigned char)s[k] : 0u;
  };
  unsigned c = at(i);
  auto cont = [&](size_t k) { return (at(k) & 0xC0) == 0x80; };
  if (c < 0x80) return 1;
  if (c >= 0xC2 && c <= 0xDF) return cont(i + 1) ? 2 : 0;
  if (c >= 0xE0 && c <= 0xEF) {
    if (!cont(i + 1) || !cont(i + 2)) return 0;
    if (c == 0xE0 && at(i + 1) < 0xA0) return 0;
    if (c == 0xED && at(i + 1) > 0x9F) return 0;
    return 3;
  }
  if (c >= 0xF0 && c <= 0xF4) {
    if (!cont(i + 1) || !cont(i + 2) || !cont(i + 3)) return 0;
    if (c == 0xF0 && at(i + 1) < 0x90) return 0;
    if (c == 0xF4 && at(i + 1) > 0x8F) return 0;
    return 4;
  }
  return 0;
}
inline bool validUtf8(const std::string& s) {
  for (size_t i = 0; i < s.size();) {
    size_t n = utf8Len(s, i);
    if (!n) return false;
    i += n;
  }
  return true;
}

class Parser {
 public:
  // A lenient parser accepts any bytes and lone surrogates in strings.
  explicit Parser(const std::string& t, bool lenient = false)
      : t(t), lenient(lenient) {}
  bool parse(J* out) {
    ws();
    if (!value(out, 0)) return false;
    ws();
    if (p != t.size()) return fail("data after the document");
    return true;
  }
  std::string error;

 private:
  const std::string& t;
  const bool lenient;
  size_t p = 0;

  bool fail(const char* e) {
    if (error.empty()) error = pbt::fmt("%s at byte %zu", e, p);
    return false;
  }
  void ws() {
    while (p < t.size() && (t[p] == ' ' || t[p] == '\t' || t[p] == '\n' ||
                            t[p] == '\r')) {
      p++;
    }
  }
  bool lit(const char* s) {
    size_t n = strlen(s);
    if (t.compare(p, n, s) != 0) return fail("bad literal");
    p += n;
    return true;
  }
  bool value(J* out, int depth) {
    if (p >= t.size()) return fail("unexpected end");
    if (depth > 5000) return fail("too deep");
    switch (t[p]) {
      case 'n':
        out->kind = J::Null;
        return lit("null");
      case 't':
        *out = J::boolean(true);
        return lit("true");
      case 'f':
        *out = J::boolean(false);
        return lit("false");
      case '"':
        out->kind = J::Str;
        return str(&out->s);
      case '[': {
        out->kind = J::Arr;
        p++;
        ws();
        if (p < t.size() && t[p] == ']') {
          p++;
          return true;
        }
        while (true) {
          ws();
          out->a.emplace_back();
          if (!value(&out->a.back(), depth + 1)) return false;
          ws();
          if (p >= t.size()) return fail("unexpected end");
          if (t[p] == ',') {
            p++;
            continue;
          }
          if (t[p] == ']') {
            p++;
            return true;
          }
          return fail("expected , or ]");
        }
      }
      case '{': {
        out->kind = J::Obj;
        p++;
        ws();
        if (p < t.size() && t[p] == '}') {
          p++;
          return true;
        }
        while (true) {
          ws();
          if (p >= t.size() || t[p] != '"') return fail("expected a key");
          std::string k;
          if (!str(&k)) return false;
          ws();
          if (p >= t.size() || t[p] != ':') return fail("expected :");
          p++;
          ws();
          out->o.emplace_back(k, J());
          if (!value(&out->o.back().second, depth + 1)) return false;
          ws();
          if (p >= t.size()) return fail("unexpected end");
          if (t[p] == ',') {
            p++;
            continue;
          }
          if (t[p] == '}') {
            p++;
            return true;
          }
          return fail("expected , or }");
        }
      }
      default:
        return num(out);
    }
  }
  int hex4() {
    if (p + 4 > t.size()) return -1;
    int v = 0;
    for (int n = 0; n < 4; n++) {
      char c = t[p + size_t(n)];
      int d = c >= '0' && c <= '9'   ? c - '0'
              : c >= 'a' && c <= 'f' ? c - 'a' + 10
              : c >= 'A' && c <= 'F' ? c - 'A' + 10
                                     : -1;
      if (d < 0) return -1;
      v = v * 16 + d;
    }
    p += 4;
    return v;
  }
  bool str(std::string* out) {
    p++;
    while (true) {
      if (p >= t.size()) return fail("unterminated string");
      unsigned char c = (unsigned char)t[p];
      if (c == '"') {
        p++;
        return true;
      }
      if (c < 0x20) return fail("control character in a string");
      if (c != '\\') {
        size_t n = utf8Len(t, p);
        if (!n && lenient) n = 1;
        if (!n) return fail("invalid UTF-8");
        out->append(t, p, n);
        p += n;
        continue;
      }
      p++;
      if (p >= t.size()) return fail("unterminated string");
      char e = t[p++];
      switch (e) {
        case '"': *out += '"'; break;
        case '\\': *out += '\\'; break;
        case '/': *out += '/'; break;
        case 'b': *out += '\b'; break;
        case 'f': *out += '\f'; break;
        case 'n': *out += '\n'; break;
        case 'r': *out += '\r'; break;
        case 't': *out += '\t'; break;
        case 'u': {
          int v = hex4();
          if (v < 0) return fail("bad \\u escape");
          uint32_t cp = uint32_t(v);
          if (lenient) {
            utf8(*out, cp);
            break;
          }
          if (cp >= 0xDC00 && cp < 0xE000) return fail("lone surrogate");
          if (cp >= 0xD800 && cp < 0xDC00) {
            if (t.compare(p, 2, "\\u") != 0) return fail("lone surrogate");
            p += 2;
            int lo = hex4();
            if (lo < 0xDC00 || lo >= 0xE000) return fail("lone surrogate");
            cp = 0x10000 + ((cp - 0xD800) << 10) + uint32_t(lo - 0xDC00);
          }
          utf8(*out, cp);
          break;
        }
        default:
          return fail("bad escape");
      }
    }
  }
  bool digits() {
    size_t q = p;
    while (p < t.size() && t[p] >= '0' && t[p] <= '9') p++;
    return p > q;
  }
  bool num(J* out) {
    size_t q = p;
    if (p < t.size() && t[p] == '-') p++;
    if (p < t.size() && t[p] == '0') {
      p++;
    } else if (!digits()) {
      return fail("bad value");
    }
    bool isInt = true;
    if (p < t.size() && t[p] == '.') {
      isInt = false;
      p++;
      if (!digits()) return fail("bad number");
    }
    if (p < t.size() && (t[p] == 'e' || t[p] == 'E')) {
      isInt = false;
      p++;
      if (p < t.size() && (t[p] == '+' || t[p] == '-')) p++;
      if (!digits()) return fail("bad number");
    }
    auto text = t.substr(q, p - q);
    out->d = strtod(text.c_str(), nullptr);
    if (isInt) {
      out->kind = J::Int;
      errno = 0;
      out->i = strtoll(text.c_str(), nullptr, 10);
      if (errno == ERANGE) out->big = true;
    } else {
      out->kind = J::Num;
    }
    return true;
  }
};

inline bool parseJson(const std::string& text, J* out,
                      std::string* error = nullptr, bool lenient = false) {
  *out = J();
  Parser p(text, lenient);
  bool ok = p.parse(out);
  if (error) *error = p.error;
  return ok;
}

// Writes JSON. With a Case, the optional parts of the syntax (white space,
// escapes, order of members) are drawn.
struct JsonStyle {
  pbt::Case* c = nullptr;
  bool spaces = false;
  bool escapes = false;
  bool numbers = false;  // other ways to write a non-integer
};

// Writes a finite number, so that it is read back exactly.
inline std::string numberText(double d, const JsonStyle& st) {
  std::string t = pbt::fmt("%.17g", d);
  if (st.numbers && st.c) {
    switch (st.c->draw(6)) {
      case 1:
        t = pbt::fmt("%.17e", d);
        break;
      case 2:
        t = pbt::fmt("%.16E", d);
        break;
      case 3:
        for (int p = 1; p < 17; p++) {
          auto u = pbt::fmt("%.*g", p, d);
          if (strtod(u.c_str(), nullptr) == d) {
            t = u;
            break;
          }
        }
        break;
      case 4:
        if (fabs(d) < 1e15 && fabs(d) > 1e-5) t = pbt::fmt("%.25f", d);
        break;
      case 5:
        if (fabs(d) < 1e15 && fabs(d) > 1e-5) t = pbt::fmt("%.20fe%d", d, 0);
        break;
    }
  }
  if (t.find_first_of(".eE") == std::string::npos) t += st.numbers && st.c && st.c->flip() ? "e0" : ".0";
  return t;
}

inline void writeString(std::string& out, const std::string& s,
                        const JsonStyle& st) {
  out += '"';
  for (size_t i = 0; i < s.size();) {
    unsigned char ch = (unsigned char)s[i];
    size_t n = utf8Len(s, i);
    if (n == 0) {  // written as it is
      out += char(ch);
      i++;
      continue;
    }
    bool esc = st.escapes && st.c && st.c->chance(1, 4);
    if (ch == '"' || ch == '\\') {
      out += '\\';
      out += char(ch);
    } else if (ch < 0x20 || (esc && n == 1)) {
      if (esc && ch == '\n') out += "\\n";
      else if (esc && ch == '\t') out += "\\t";
      else if (esc && ch == '/') out += "\\/";
      else if (esc && ch == '\b') out += "\\b";
      else if (esc && ch == '\f') out += "\\f";
      else if (esc && ch == '\r') out += "\\r";
      else out += pbt::fmt("\\u%04x", ch);
    } else if (esc && n > 1) {
      uint32_t cp = 0;
      if (n == 2) cp = ((ch & 31u) << 6) | (s[i + 1] & 63u);
      if (n == 3) cp = ((ch & 15u) << 12) | ((s[i + 1] & 63u) << 6) | (s[i + 2] & 63u);
      if (n == 4)
        cp = ((ch & 7u) << 18) | ((s[i + 1] & 63u) << 12) |
             ((s[i + 2] & 63u) << 6) | (s[i + 3] & 63u);
      if (cp >= 0x10000) {
        cp -= 0x10000;
        out += pbt::fmt("\\u%04X\\u%04x", 0xD800 + (cp >> 10), 0xDC00 + (cp & 1023));
      } else {
        out += pbt::fmt("\\u%04X", cp);
      }
    } else {
      out.append(s, i, n);
    }
    i += n;
  }
  out += '"';
}

inline void writeJson(std::string& out, const J& j, const JsonStyle& st = {}) {
  auto ws = [&] {
    if (st.spaces && st.c && st.c->chance(1, 5)) {
      static const char* w[] = {" ", "\n", "\t", "\r\n", "  "};
      out += w[st.c->draw(5)];
    }
  };
  switch (j.kind) {
    case J::Null:
      out += "null";
      break;
    case J::Bool:
      out += j.b ? "true" : "false";
      break;
    case J::Int:
      out += std::to_string(j.i);
      break;
    case J::Num:
      out += numberText(j.d, st);
      break;
    case J::Str:
      writeString(out, j.s, st);
      break;
    case J::Arr:
      out += '[';
      ws();
      for (size_t n = 0; n < j.a.size(); n++) {
        if (n) {
          out += ',';
          ws();
        }
        writeJson(out, j.a[n], st);
        ws();
      }
      out += ']';
      break;
    case J::Obj:
      out += '{';
      ws();
      for (size_t n = 0; n < j.o.size(); n++) {
        if (n) {
          out += ',';
          ws();
        }
        writeString(out, j.o[n].first, st);
        ws();
        out += ':';
        ws();
        writeJson(out, j.o[n].second, st);
        ws();
      }
      out += '}';
      break;
  }
}

inline std::string toJson(const J& j, const JsonStyle& st = {}) {
  std::string s;
  writeJson(s, j, st);
  return s;
}

// Generates text: any valid UTF-8, biased to the interesting.
// A text of 200 to 140000 bytes, often near a power of two.
inline std::string genLong(pbt::Case& c) {
  size_t n = size_t(1) << (8 + c.draw(10));
  n += c.flip() ? c.draw(n) : c.draw(20);
  n -= c.draw(20);
  std::string s;
  s.reserve(n);
  char base = char('a' + c.draw(16));
  while (s.size() < n) s += char(base + (s.size() / 7) % 10);
  return s;
}

inline std::string genText(pbt::Case& c, size_t max = 24) {
  if (max > 10 && c.chance(1, 24)) {
    static const std::vector<std::string> words = {
        "cancelled", "notStopped", "null", "true", "false", "0", "1", "-1",
        "request", "response", "event", "initialize", "initialized",
        "disconnect", "terminate", "error", "success", "message", "body",
        "seq", "type", "%s", "%", "{}", "[]", "Content-Length: 1\r\n\r\n{",
        "\r\n\r\n", " ", "\t", "~", "undefined", "NaN"};
    return c.pick(words);
  }
  std::string s;
  size_t n = c.size(max);
  int flavour = int(c.draw(4));
  for (size_t i = 0; i < n; i++) {
    switch (flavour) {
      case 0:
        s += char('a' + c.draw(26));
        break;
      case 1:
        s += char(32 + c.draw(95));
        break;
      case 2:
        s += char(c.draw(128));
        break;
      default:
        switch (c.draw(6)) {
          case 0:
            s += char(c.draw(128));
            break;
          case 1:
            utf8(s, uint32_t(0x80 + c.draw(0x780)));
            break;
          case 2: {
            uint32_t cp = uint32_t(0x800 + c.draw(0xF800));
            if (cp >= 0xD800 && cp < 0xE000) cp = 0xFFFD;
            utf8(s, cp);
            break;
          }
          case 3:
            utf8(s, uint32_t(0x10000 + c.draw(0x100000)));
            break;
          case 4: {
            static const uint32_t k[] = {0,      0x7F,   0x80,   0x7FF,
                                         0x800,  0xFFFF, 0xFFFE, 0x10000,
                                         0x10FFFF, 0xD7FF, 0xE000, 0x2028,
                                         0xFEFF, '"',    '\\',   '/'};
            utf8(s, k[c.draw(16)]);
            break;
          }
          default:
            s += char('0' + c.draw(10));
        }
    }
  }
  return s;
}

inline int64_t genInt(pbt::Case& c) {
  switch (c.draw(5)) {
    case 0:
      return int64_t(c.draw(20));
    case 1:
      return -int64_t(c.draw(20));
    case 2: {
      // Next to a power of two.
      int64_t p = int64_t(uint64_t(1) << c.draw(63));
      p += int64_t(c.draw(5)) - 2;
      return c.flip() ? -p : p;
    }
    case 3: {
      static const int64_t k[] = {INT64_MAX,  INT64_MIN,  INT64_MAX - 1,
                                  INT64_MIN + 1, INT32_MAX, INT32_MIN,
                                  int64_t(INT32_MAX) + 1, int64_t(UINT32_MAX),
                                  int64_t(UINT32_MAX) + 1, 9007199254740991ll,
                                  9007199254740993ll, -9007199254740993ll};
      return k[c.draw(12)];
    }
    default:
      return int64_t(c.bits());
  }
}

inline double genDouble(pbt::Case& c) {
  switch (c.draw(6)) {
    case 0:
      return double(c.draw(100));
    case 1:
      return -double(c.draw(1000)) / 8;
    case 2:
      return double(c.draw(100000)) / 1000.0;
    case 3: {
      static const double k[] = {0.1,     -0.0,     1e-7,    1e21,    1e300,
                                 5e-324,  2.2250738585072014e-308,
                                 1.7976931348623157e308, 0.30000000000000004,
                                 9007199254740993.0, 1e15, 1e16, 123456789012345680.0,
                                 9.223372036854775807e18, -9.3e18, 4294967296.0,
                                 1.0 / 3, 100.0, 1e5, 3.14};
      return k[c.draw(20)];
    }
    default: {
      uint64_t b = c.bits();
      double d;
      memcpy(&d, &b, 8);
      if (!isfinite(d)) d = double(int64_t(b)) / 7;
      return d;
    }
  }
}

}  // namespace h
