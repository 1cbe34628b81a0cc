// Generators for framed streams, garbage and malformed headers.
#pragma once

#include "pbt.h"
#include "streams.h"

namespace h {

inline std::string anyBody(pbt::Case& c) {
  // Never empty.
  switch (c.draw(8)) {
    case 0: {
      std::string s = "a";
      s.append(c.draw(20), 'b');
      return s;
    }
    case 1:  // header look-alikes
    case 2: {
      static const std::vector<std::string> parts = {
          "Content-Length: 5\r\n\r\n", "Content-Length:", "\r\n\r\n", "\r\n",
          "Content-Length: 5", "Content-", "0", "9", " ", "\t", "hello",
          std::string(1, '\0'), "\r", "\n", "{}", "\xff", ":"};
      std::string s;
      size_t n = 1 + c.draw(8);
      for (size_t i = 0; i < n; i++) s += c.pick(parts);
      return s;
    }
    case 3:
    case 4:
      return c.bytes(1 + c.size(64));
    case 5: {  // around the sizes of internal buffers
      static const std::vector<size_t> around = {255, 256, 257, 511, 512, 513,
                                                 767, 768, 1023, 1024, 1025,
                                                 2047, 2048, 4095, 4096, 4097};
      return c.bytes(c.pick(around));
    }
    case 6:
      if (c.chance(1, 1000)) {
        // A large message, around the sizes that limits tend to have.
        static const std::vector<size_t> sizes = {32768, 65536, 100000, 131072, 1 << 20, 1500000, 1 << 21};
        std::string s(c.chance(1, 100) ? 0x1000003 : c.pick(sizes) + c.draw(3) - 1, 0);
        unsigned k = unsigned(c.draw(256));
        for (size_t i = 0; i < s.size(); i++) s[i] = char(i * 5 + i / 253 + k);
        return s;
      }
      return c.bytes(1 + c.size(c.chance(1, 8) ? 70000 : 3000));
    default:
      return std::string(1 + c.size(40), char(c.draw(256)));
  }
}

static const char kPrefix[] = "Content-Length:";

// Bytes that contain no complete header prefix. Never empty.
inline std::string garbage(pbt::Case& c) {
  static const std::vector<std::string> parts = {
      "C",        "Co",       "Content-Length", "Content-Leng", "Content-",
      "\r\n\r\n", "\r\n",     "content-length: 5\r\n\r\nhello",
      "Content-length: 3\r\n\r\n", "Content-Length : 4\r\n\r\nabcd",
      "5",        " ",        "\t", std::string(1, '\0'), "{\"a\":1}",
      "GET / HTTP/1.1\r\n", "ontent-Length:", "\xc3\xa9", "\xff\xfe", ":",
      "Content-Type: x\r\n"};
  std::string s;
  size_t n = 1 + c.draw(5);
  for (size_t i = 0; i < n; i++) {
    size_t what = c.draw(5);
    if (what == 4) {
      // A frame, but for some characters of its header prefix.
      std::string h = kPrefix;
      size_t k = 1 + c.draw(3), from = c.draw(h.size());
      switch (c.draw(6)) {
        case 0:
          for (auto& x : h) x = char(toupper(x));
          break;
        case 1:
          for (size_t p = from; p < h.size() && p < from + k; p++) h[p] ^= 0x20;
          break;
        case 2:
          h[from] ^= char(1 << c.draw(8));
          break;
        case 3:
          h.erase(from, 1);
          break;
        case 4:
          h.insert(from, 1, h[from]);
          break;
        default:
          h.insert(from, 1, " -\t\r\n:\0x"[c.draw(8)]);
          break;
      }
      s += h + " 5\r\n\r\nhello";
    } else if (what == 3) {
      s += c.bytes(1 + c.draw(40));
    } else {
      s += c.pick(parts);
    }
  }
  for (size_t p; (p = s.find(kPrefix)) != std::string::npos;) s[p] = 'c';
  return s;
}

// A header that must not be accepted: it contains a definite deviation from
// the strict form, and contains no second header prefix.
inline std::string malformedHeader(pbt::Case& c, std::string* kind) {
  std::string s = kPrefix;
  static const std::vector<std::string> blanks = {" ", "", "  ", "\t", " \t "};
  s += c.pick(blanks);
  switch (c.draw(9)) {
    case 6:
    case 7:
    case 8: {
      // Any mixture of the bytes that matter in a header, unless it happens to
      // be well-formed.
      *kind = "mixed";
      static const std::vector<std::string> t = {
          "5", "\r\n\r\n", "\r", "\n", "\r\n", " ", "\t", "1", "0", "hello",
          "\v", "\f", "+", "-", "x", ":", ";", "=", std::string(1, '\0'),
          "\xa0", "\xb5", "\x35\r\n\r\nhello", "\r\nContent-Type: a\r\n\r\n",
          "\r\nContent-Type: application/vscode-jsonrpc; charset=utf-8\r\n\r\n",
          "12", "#", "\"5\"", "\r\n\r\nhello"};
      size_t n = 1 + c.draw(6);
      for (size_t i = 0; i < n; i++) s += c.pick(t);
      size_t p = strlen(kPrefix);
      while (p < s.size() && (s[p] == ' ' || s[p] == '\t')) p++;
      size_t d = p;
      bool positive = false;
      for (; p < s.size() && s[p] >= '0' && s[p] <= '9'; p++) {
        positive |= s[p] != '0';
      }
      if (p > d && positive && s.compare(p, 4, "\r\n\r\n") == 0) {
        s.insert(p, 1, 'x');
      }
      break;
    }
    case 0: {
      *kind = "no digits";
      static const std::vector<std::string> t = {
          "abc", "-5\r\n\r\nhello", "+5\r\n\r\nhello", "x", "\r\n\r\n",
          "\r\n", ";", std::string("\0", 1) + "5\r\n\r\nhello", "\n\n",
          "\v5\r\n\r\nhello", "'5'\r\n\r\n", ".5\r\n\r\nabcde"};
      s += c.pick(t);
      break;
    }
    case 1: {
      *kind = "zero";
      static const std::vector<std::string> t = {"0\r\n\r\n", "00\r\n\r\n",
                                                 "0", "0x5\r\n\r\nhello",
                                                 "0 5\r\n\r\nhello"};
      s += c.pick(t);
      break;
    }
    case 2: {
      *kind = "overflow";
      static const std::vector<std::string> t = {
          "18446744073709551621",  // 2^64 + 5
          "18446744073709551617", "18446744073709551626",
          "184467440737095516165", "36893488147419103237",
          "99999999999999999999", "340282366920938463463374607431768211461",
          "79228162514264337593543950341"};
      s += c.pick(t) + "\r\n\r\nhello";
      break;
    }
    default: {
      *kind = "no CRLFCRLF";
      s += std::to_string(1 + c.size(300));
      static const std::vector<std::string> t = {
          "\n\n",      "\r\r\n\n", "\r\n\rX",  "\r\n\nX", " \r\n\r\n",
          "x\r\n\r\n", "-",        "\r\nFoo: bar\r\n\r\n", "\rabc", "\r\n \r\n",
          std::string("\0\r\n\r\n", 5), std::string("\r\n\0\r\n", 5),
          ".0\r\n\r\nhello", "e3\r\n\r\nhello", "\t\r\n\r\nhello",
          "\r\nContent-Type: a\r\n\r\nhello", ";\r\n\r\n", "\r\n\r\r",
          ",000\r\n\r\nhello"};
      s += c.pick(t);
    }
  }
  return s;
}

// A well-formed frame, with a header that may use other blanks than the
// library's own writer does.
inline std::string anyFrame(pbt::Case& c, const std::string& body) {
  static const std::vector<std::string> blanks = {" ", " ", " ", "", "\t",
                                                  "  ", " \t"};
  std::string blank = c.pick(blanks), zeros;
  if (c.chance(1, 30)) {
    for (size_t n = c.chance(1, 10) ? c.draw(400) : c.draw(20); n > 0; n--) blank += c.flip() ? ' ' : '\t';
  }
  if (c.chance(1, 30)) zeros.assign(c.chance(1, 10) ? c.draw(100) : c.draw(24), '0');
  return std::string(kPrefix) + blank + zeros + std::to_string(body.size()) +
         "\r\n\r\n" + body;
}

}  // namespace h
