// C08: protocol structs map every field to its DAP wire name.
#include "c08.h"
#include "msgs.h"
#include "streams.h"

#include "json_serializer.h"

namespace h {

std::map<std::string, Entry>& table() {
  static std::map<std::string, Entry> t;
  return t;
}
void addChunk0();
void addChunk1();
void addChunk2();
void addChunk3();
void addChunk4();
void addChunk5();
void addChunk6();
void addChunk7();

}  // namespace h

namespace {
using namespace h;

std::vector<const Entry*> all, requests, events;

void init() {
  addChunk0();
  addChunk1();
  addChunk2();
  addChunk3();
  addChunk4();
  addChunk5();
  addChunk6();
  addChunk7();
  for (auto& kv : table()) {
    all.push_back(&kv.second);
    if (kv.second.kind == Entry::Request_) requests.push_back(&kv.second);
    if (kv.second.kind == Entry::Event_) events.push_back(&kv.second);
  }
}

bool unwrap(const std::string& type, const char* outer, std::string* inner) {
  std::string p = std::string(outer) + "<";
  if (type.compare(0, p.size(), p) != 0 || type.back() != '>') return false;
  *inner = type.substr(p.size(), type.size() - p.size() - 1);
  return true;
}

std::vector<std::string> alternatives(const std::string& s) {
  std::vector<std::string> out = {""};
  int depth = 0;
  for (char ch : s) {
    if (ch == '<') depth++;
    if (ch == '>') depth--;
    if (ch == ',' && depth == 0) {
      out.push_back("");
    } else {
      out.back() += ch;
    }
  }
  return out;
}

bool isOptional(const Entry::Field& f) { return f.type.compare(0, 9, "optional<") == 0; }

// A document of the type, as the specification describes it.
J docOf(Case& c, const std::string& type, const Gen& g);

J docOf(Case& c, const Entry& e, const Gen& g) {
  Gen n = g;
  n.depth--;
  J j = J::obj();
  for (auto& f : e.fields) {
    if (isOptional(f) && (g.depth < 0 || c.flip())) continue;
    j.add(f.wire, docOf(c, f.type, n));
  }
  return j;
}

J docOf(Case& c, const std::string& type, const Gen& g) {
  std::string in;
  if (unwrap(type, "optional", &in)) return docOf(c, in, g);
  if (unwrap(type, "array", &in)) {
    J j = J::arr();
    Gen n = g;
    n.depth--;
    size_t len = g.depth <= 0 ? 0 : c.size(3);
    for (size_t i = 0; i < len; i++) j.push(docOf(c, in, n));
    return j;
  }
  if (unwrap(type, "variant", &in)) return docOf(c, c.pick(alternatives(in)), g);
  if (type == "string") return V<dap::string>::toJ(V<dap::string>::gen(c, g));
  if (type == "integer") return V<dap::integer>::toJ(V<dap::integer>::gen(c, g));
  if (type == "number") return V<dap::number>::toJ(V<dap::number>::gen(c, g));
  if (type == "boolean") return V<dap::boolean>::toJ(V<dap::boolean>::gen(c, g));
  if (type == "null") return J::null();
  if (type == "object") return V<dap::object>::toJ(V<dap::object>::gen(c, g));
  if (type == "any") return V<dap::any>::toJ(V<dap::any>::gen(c, g));
  auto it = table().find(type);
  if (it == table().end()) c.fail("no type '%s' in the table", type.c_str());
  return docOf(c, it->second, g);
}

// Returns what is wrong with j as an object of the type.
std::string wrong(const J& j, const std::string& type);

std::string wrong(const J& j, const Entry& e) {
  if (j.kind != J::Obj) return "is not an object";
  for (auto& f : e.fields) {
    auto v = j.get(f.wire);
    if (!v) {
      if (!isOptional(f)) return "has no '" + f.wire + "'";
      continue;
    }
    auto w = wrong(*v, f.type);
    if (!w.empty()) return "'" + f.wire + "' " + w;
  }
  for (auto& kv : j.o) {
    bool known = false;
    for (auto& f : e.fields) known |= f.wire == kv.first;
    if (!known) return "has an unspecified key '" + kv.first + "'";
  }
  return "";
}

std::string wrong(const J& j, const std::string& type) {
  std::string in;
  if (unwrap(type, "optional", &in)) return wrong(j, in);
  if (unwrap(type, "array", &in)) {
    if (j.kind != J::Arr) return "is not an array";
    for (auto& x : j.a) {
      auto w = wrong(x, in);
      if (!w.empty()) return "has an element that " + w;
    }
    return "";
  }
  if (unwrap(type, "variant", &in)) {
    for (auto& a : alternatives(in)) {
      if (wrong(j, a).empty()) return "";
    }
    return "is no alternative of " + type;
  }
  if (type == "string") return j.kind == J::Str ? "" : "is not a string";
  if (type == "integer") return j.kind == J::Int ? "" : "is not an integer";
  if (type == "number") return j.kind == J::Int || j.kind == J::Num ? "" : "is not a number";
  if (type == "boolean") return j.kind == J::Bool ? "" : "is not a boolean";
  if (type == "null") return j.kind == J::Null ? "" : "is not null";
  if (type == "object") return j.kind == J::Obj ? "" : "is not an object";
  if (type == "any") return "";
  return wrong(j, table()[type]);
}

std::string show(const J& j) { return pbt::esc(toJson(j), 500); }

void checkEncoded(Case& c, const Entry& e, const J& expected, const J& got, const char* where) {
  if (!same(expected, got)) {
    c.fail("%s: %s is encoded as %s, its fields are %s", where, e.name.c_str(),
           show(got).c_str(), show(expected).c_str());
  }
  auto w = wrong(got, e);
  if (!w.empty()) {
    c.fail("%s: %s is encoded as %s, which %s", where, e.name.c_str(), show(got).c_str(),
           w.c_str());
  }
}

void encode(Case& c, const Entry& e, const Gen& g) {
  auto obj = e.gen(c, g);
  J j = e.toJ(obj.get());
  dap::json::Serializer s;
  if (!e.info->serialize(&s, obj.get())) c.fail("%s does not serialize", e.name.c_str());
  J got;
  std::string err, text = s.dump();
  if (!parseJson(text, &got, &err)) c.fail("%s: not JSON: %s", e.name.c_str(), text.c_str());
  if (e.fields.empty() && got.kind == J::Null) got = J::obj();  // see C05
  checkEncoded(c, e, j, got, "serialize");
  if (c.wantDescription()) c.describe("encode " + e.name + " " + pbt::esc(text, 300));
}

void decode(Case& c, const Entry& e, const Gen& g) {
  J doc = docOf(c, e, g);
  J expected = doc;
  bool ok = true;
  switch (c.draw(4)) {
    case 0: {  // an unknown key
      std::string k = "x" + genText(c, 6);
      bool known = false;
      for (auto& f : e.fields) known |= f.wire == k;
      if (!known) doc.o.insert(doc.o.begin() + long(c.draw(doc.o.size() + 1)), {k, J::integer(1)});
      break;
    }
    case 1: {  // a key is missing
      if (doc.o.empty()) break;
      size_t n = c.draw(doc.o.size());
      for (auto& f : e.fields) {
        if (f.wire == doc.o[n].first && !isOptional(f)) ok = false;
      }
      doc.o.erase(doc.o.begin() + long(n));
      expected = doc;
      break;
    }
    case 2: {  // under another name
      if (doc.o.empty()) break;
      size_t n = c.draw(doc.o.size());
      std::string k = doc.o[n].first;
      switch (c.draw(3)) {
        case 0: k += "s"; break;
        case 1: k = std::string(1, char(k[0] ^ 0x20)) + k.substr(1); break;
        default: k = "_" + k;
      }
      if (doc.get(k)) break;
      for (auto& f : e.fields) {
        if (f.wire == doc.o[n].first && !isOptional(f)) ok = false;
      }
      for (auto& f : e.fields) {
        if (f.wire == k) return;
      }
      expected.o.erase(expected.o.begin() + long(n));
      doc.o[n].first = k;
      break;
    }
    default:
      break;
  }
  for (size_t n = doc.o.size(); n > 1; n--) std::swap(doc.o[n - 1], doc.o[c.draw(n)]);
  std::string text = toJson(doc);
  dap::json::Deserializer d(text);
  auto obj = e.fresh();
  bool got = e.info->deserialize(&d, obj.get());
  if (got != ok) {
    c.fail("%s %s decoded from %s", e.name.c_str(), got ? "is" : "is not",
           pbt::esc(text, 500).c_str());
  }
  if (ok && !same(e.toJ(obj.get()), expected)) {
    c.fail("%s decoded from %s has the fields %s", e.name.c_str(), pbt::esc(text, 500).c_str(),
           show(e.toJ(obj.get())).c_str());
  }
  if (c.wantDescription()) c.describe("decode " + e.name + " " + pbt::esc(text, 300));
}

struct Side {
  std::unique_ptr<dap::Session> s = dap::Session::create();
  std::shared_ptr<ChunkReader> in = std::make_shared<ChunkReader>("", std::vector<size_t>{});
  std::shared_ptr<BufferWriter> out = std::make_shared<BufferWriter>();
  FrameParser frames;
  std::vector<std::string> errors;

  Side() {
    s->onError([this](const char* m) { errors.push_back(m); });
    s->connect(std::shared_ptr<dap::Reader>(in), std::shared_ptr<dap::Writer>(out));
  }
  // Processes one message.
  void receive(const J& j) {
    in->data += frame(toJson(j));
    if (auto f = s->getPayload()) f();
  }
  J sent(Case& c, const char* what) {
    size_t n = frames.messages.size();
    while (frames.poll(c, out->data)) {
    }
    if (frames.messages.size() != n + 1) {
      c.fail("%s: %zu messages were written (%s)", what, frames.messages.size() - n,
             errors.empty() ? "no error" : errors[0].c_str());
    }
    return frames.messages.back();
  }
};

void expectStr(Case& c, const Entry& e, const J& m, const char* key, const std::string& v) {
  auto x = m.get(key);
  if (!x || x->kind != J::Str || x->s != v) {
    c.fail("%s is sent with '%s' %s, not \"%s\"", e.name.c_str(), key,
           x ? show(*x).c_str() : "missing", v.c_str());
  }
}

J bodyOf(const J& m, const char* key) {
  auto b = m.get(key);
  return b && b->kind != J::Null ? *b : J::obj();
}

void noErrors(Case& c, const Entry& e, const Side& s) {
  if (!s.errors.empty()) c.fail("%s: error: %s", e.name.c_str(), s.errors[0].c_str());
}

void message(Case& c, const Entry& e, const Gen& g) {
  Side a, b;
  J seen;
  const Entry* by = nullptr;
  int calls = 0;
  const Entry* re = e.kind == Entry::Request_ ? &table()[e.response] : nullptr;
  std::shared_ptr<void> reply;
  if (re && !c.chance(1, 4)) reply = re->gen(c, g);
  // All messages have a handler.
  for (auto list : {&requests, &events}) {
    for (auto x : *list) {
      x->handle(b.s.get(), [&, x](J j) -> std::shared_ptr<void> {
        calls++;
        by = x;
        seen = j;
        return x == &e ? reply : nullptr;
      });
    }
  }
  noErrors(c, e, b);
  J sentBody;
  std::string sentError;
  int sentCalls = 0;
  if (re) {
    e.handleSent(b.s.get(), [&](J j, std::string err) {
      sentCalls++;
      sentBody = j;
      sentError = err;
    });
  }
  const char* key = re ? "arguments" : "body";
  const char* id = re ? "command" : "event";
  J msg, args;
  Entry::Result result;
  bool fromStruct = re || c.flip();
  if (fromStruct) {
    auto obj = e.gen(c, g);
    args = e.toJ(obj.get());
    if (re) {
      result = e.request(a.s.get(), obj.get());
    } else {
      e.event(a.s.get(), obj.get());
    }
    msg = a.sent(c, e.name.c_str());
    expectStr(c, e, msg, "type", re ? "request" : "event");
    expectStr(c, e, msg, id, e.wire);
    checkEncoded(c, e, args, bodyOf(msg, key), "send");
    noErrors(c, e, a);
  }
  if (!fromStruct || c.chance(1, 3)) {
    // As another implementation sends it.
    int64_t seq = 1;
    if (fromStruct) seq = msg.get("seq")->i;
    args = docOf(c, e, g);
    msg = re ? requestJ(seq, e.wire, args) : eventJ(seq, e.wire, args);
    if (args.o.empty() && c.flip()) {
      for (size_t n = 0; n < msg.o.size(); n++) {
        if (msg.o[n].first == key) {
          msg.o.erase(msg.o.begin() + long(n));
          break;
        }
      }
    }
  }
  b.receive(msg);
  noErrors(c, e, b);
  if (calls != 1 || by != &e) {
    c.fail("%s invoked %d handlers, %s", show(msg).c_str(), calls,
           by ? by->name.c_str() : "none");
  }
  if (!same(seen, args)) {
    c.fail("%s is received as %s, it was sent as %s", e.name.c_str(), show(seen).c_str(),
           show(args).c_str());
  }
  if (re) {
    J resp = b.sent(c, re->name.c_str());
    expectStr(c, *re, resp, "type", "response");
    expectStr(c, *re, resp, "command", e.wire);
    auto ok = resp.get("success");
    if (!ok || ok->kind != J::Bool || ok->b != bool(reply)) {
      c.fail("%s: 'success' is wrong: %s", re->name.c_str(), show(resp).c_str());
    }
    J body = reply ? re->toJ(reply.get()) : J::null();
    if (reply) {
      checkEncoded(c, *re, body, bodyOf(resp, "body"), "respond");
    } else {
      expectStr(c, *re, resp, "message", "refused");
    }
    if (sentCalls != 1 || sentError != (reply ? "" : "refused") || !same(sentBody, body)) {
      c.fail("%s: the sent handler got %d calls, error '%s', %s", re->name.c_str(), sentCalls,
             sentError.c_str(), show(sentBody).c_str());
    }
    if (reply && c.chance(1, 3)) {
      body = docOf(c, *re, g);
      bool had = false;
      for (auto& kv : resp.o) {
        if (kv.first == "body") {
          kv.second = body;
          had = true;
        }
      }
      if (!had) resp.add("body", body);
    }
    a.receive(resp);
    noErrors(c, e, a);
    J got;
    std::string err;
    if (!result(&got, &err)) c.fail("%s is not answered by %s", e.name.c_str(), show(resp).c_str());
    if (reply ? (!err.empty() || !same(got, body)) : err != "refused") {
      c.fail("%s: the response %s is received as %s '%s'", e.name.c_str(), show(resp).c_str(),
             show(got).c_str(), err.c_str());
    }
  }
  if (c.wantDescription()) {
    c.describe(std::string(re ? "request " : "event ") + pbt::esc(toJson(msg), 300));
  }
}

void property(Case& c) {
  Gen g;
  g.depth = 1 + int(c.draw(4));
  g.maxLen = 3;
  const Entry* e;
  switch (c.draw(4)) {
    case 0:
      e = c.pick(all);
      encode(c, *e, g);
      c.label("encoded");
      break;
    case 1:
      e = c.pick(all);
      decode(c, *e, g);
      c.label("decoded");
      break;
    case 2:
      e = c.pick(requests);
      message(c, *e, g);
      c.label("request and response");
      break;
    default:
      e = c.pick(events);
      message(c, *e, g);
      c.label("event");
  }
  if (!e->fields.empty() || e->kind == Entry::Request_ || e->kind == Entry::Event_) {
    c.nontrivial(c.bits());
  }
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Options o;
  o.name = "c08_protocol";
  o.rule =
      "A case takes one of the 135 structs of the protocol, with generated field "
      "values or a generated document of its specified type, and encodes or "
      "decodes it, or sends it as request (with its response) or event between "
      "two sessions with handlers for all messages; keys, values and names are "
      "compared with the table of the DAP specification. Non-trivial: all but "
      "structs without fields.";
  o.property = property;
  o.quickCases = 60000;
  o.thoroughCases = 12000000;
  o.quickCap = 40;
  o.workerInit = [](int) { init(); };
  return pbt::run(argc, argv, o);
}
