// Test messages, and a reader of the frames that a session writes.
#pragma once

#include "json.h"

#include "dap/protocol.h"
#include "dap/session.h"
#include "dap/typeof.h"

#include <string>
#include <vector>

////////////////////////////////////////////////////////////////////////////////
// Test messages. All of them have the same fields.
////////////////////////////////////////////////////////////////////////////////
namespace dap {

#define V_FIELDS              \
  integer id = 0;             \
  string text;                \
  optional<integer> extra;    \
  array<string> list;
#define V_INFO(T, NAME)                                                   \
  DAP_STRUCT_TYPEINFO(T, NAME, DAP_FIELD(id, "id"), DAP_FIELD(text, "text"), \
                      DAP_FIELD(extra, "extra"), DAP_FIELD(list, "list"))
#define V_REQUEST(N)                            \
  struct VRes##N : public Response { V_FIELDS }; \
  V_INFO(VRes##N, "");                          \
  struct VReq##N : public Request {             \
    using Response = VRes##N;                   \
    V_FIELDS                                    \
  };                                            \
  V_INFO(VReq##N, "v/req" #N)
#define V_EVENT(N)                            \
  struct VEv##N : public Event { V_FIELDS };  \
  V_INFO(VEv##N, "v-ev" #N)

V_REQUEST(1);
V_REQUEST(2);
V_REQUEST(3);
V_REQUEST(4);
V_REQUEST(5);
V_EVENT(1);
V_EVENT(2);
V_EVENT(3);

}  // namespace dap

namespace h {

using pbt::Case;

// The content of a test message.
struct Val {
  int64_t id = 0;
  std::string text;
  bool hasExtra = false;
  int64_t extra = 0;
  std::vector<std::string> list;

  bool operator==(const Val& o) const {
    return id == o.id && text == o.text && hasExtra == o.hasExtra &&
           (!hasExtra || extra == o.extra) && list == o.list;
  }
  bool operator!=(const Val& o) const { return !(*this == o); }
  std::string str() const {
    std::string s = pbt::fmt("{id %lld text %s", (long long)id,
                             pbt::esc(text, 40).c_str());
    if (hasExtra) s += pbt::fmt(" extra %lld", (long long)extra);
    for (auto& x : list) s += " [" + pbt::esc(x, 20) + "]";
    return s + "}";
  }
};

inline Val genVal(Case& c, int64_t id, bool large = true) {
  Val v;
  v.id = id;
  if (c.draw(3) == 0) return v;
  if (large && c.chance(1, 60)) {
    v.text = genLong(c);
  } else {
    v.text = genText(c, large && c.chance(1, 16) ? 900 : 12);
  }
  v.hasExtra = c.flip();
  if (v.hasExtra) v.extra = genInt(c);
  size_t n = c.draw(3);
  for (size_t i = 0; i < n; i++) v.list.push_back(genText(c, 6));
  return v;
}

template <typename T>
T toMsg(const Val& v) {
  T t;
  t.id = v.id;
  t.text = v.text;
  if (v.hasExtra) t.extra = v.extra;
  for (auto& s : v.list) t.list.push_back(s);
  return t;
}

template <typename T>
Val fromMsg(const T& t) {
  Val v;
  v.id = t.id;
  v.text = t.text;
  v.hasExtra = t.extra.has_value();
  if (v.hasExtra) v.extra = *t.extra;
  for (auto& s : t.list) v.list.push_back(s);
  return v;
}

inline J toJ(const Val& v) {
  J j = J::obj();
  j.add("id", J::integer(v.id));
  j.add("text", J::str(v.text));
  if (v.hasExtra) j.add("extra", J::integer(v.extra));
  J l = J::arr();
  for (auto& s : v.list) l.push(J::str(s));
  j.add("list", l);
  return j;
}

// A message object {"seq", "type", ...}.
inline J msgJ(int64_t seq, const std::string& type) {
  J j = J::obj();
  j.add("seq", J::integer(seq));
  j.add("type", J::str(type));
  return j;
}
inline J requestJ(int64_t seq, const std::string& command, const J& args) {
  J j = msgJ(seq, "request");
  j.add("command", J::str(command));
  j.add("arguments", args);
  return j;
}
inline J eventJ(int64_t seq, const std::string& event, const J& body) {
  J j = msgJ(seq, "event");
  j.add("event", J::str(event));
  j.add("body", body);
  return j;
}
inline J responseJ(int64_t seq, int64_t requestSeq, const std::string& command,
                   const J& body) {
  J j = msgJ(seq, "response");
  j.add("request_seq", J::integer(requestSeq));
  j.add("success", J::boolean(true));
  j.add("command", J::str(command));
  j.add("body", body);
  return j;
}
inline J failureJ(int64_t seq, int64_t requestSeq, const std::string& command,
                  const std::string& message) {
  J j = msgJ(seq, "response");
  j.add("request_seq", J::integer(requestSeq));
  j.add("success", J::boolean(false));
  j.add("command", J::str(command));
  j.add("message", J::str(message));
  return j;
}

// Splits off the complete frames of a byte stream. Fails the case for anything
// else than strict frames.
struct FrameParser {
  size_t pos = 0;
  std::vector<J> messages;
  std::vector<std::string> bodies;

  // Returns true if there was a new frame.
  bool poll(Case& c, const std::string& data) {
    static const std::string head = "Content-Length: ";
    size_t n = std::min(head.size(), data.size() - pos);
    if (data.compare(pos, n, head, 0, n) != 0) {
      c.fail("the output is not a frame header: %s",
             pbt::esc(data.substr(pos, 60)).c_str());
    }
    if (n < head.size()) return false;
    size_t p = pos + head.size();
    size_t len = 0, digits = 0;
    while (p < data.size() && data[p] >= '0' && data[p] <= '9') {
      len = len * 10 + size_t(data[p] - '0');
      p++;
      digits++;
      if (digits > 9) c.fail("the output has a frame of %zu bytes", len);
    }
    if (p == data.size()) return false;
    n = std::min<size_t>(4, data.size() - p);
    if (!digits || data.compare(p, n, "\r\n\r\n", 0, n) != 0) {
      c.fail("the output has a malformed frame header: %s",
             pbt::esc(data.substr(pos, 60)).c_str());
    }
    p += 4;
    if (p > data.size() || data.size() - p < len) return false;
    std::string body = data.substr(p, len);
    pos = p + len;
    J j;
    std::string err;
    if (!parseJson(body, &j, &err)) {
      c.fail("a message is not JSON (%s): %s", err.c_str(),
             pbt::esc(body, 300).c_str());
    }
    if (j.kind != J::Obj) c.fail("a message is not an object");
    for (size_t i = 0; i < j.o.size(); i++) {
      for (size_t k = 0; k < i; k++) {
        if (j.o[i].first == j.o[k].first) {
          c.fail("a message has two fields '%s'", j.o[i].first.c_str());
        }
      }
    }
    messages.push_back(j);
    bodies.push_back(body);
    return true;
  }
  void all(Case& c, const std::string& data) {
    while (poll(c, data)) {
    }
    if (pos != data.size()) {
      c.fail("the output ends with an incomplete frame: %s",
             pbt::esc(data.substr(pos, 100)).c_str());
    }
  }
};

inline int64_t intOf(Case& c, const J& j, const char* field) {
  auto f = j.get(field);
  if (!f || f->kind != J::Int || f->big) {
    c.fail("a message has no integer '%s': %s", field,
           pbt::esc(toJson(j), 200).c_str());
  }
  return f->i;
}

}  // namespace h
