// C04: no received bytes can crash a session or stop it serving.
#define V_NO_BACKENDS
#include "frames.h"
#include "msgs.h"
#include "values.h"

#include <set>

namespace {
using namespace h;

SchemaPtr valSchema() {
  static SchemaPtr s = [] {
    auto s = mkSchema(Schema::Struct);
    auto list = mkSchema(Schema::Arr);
    list->elem = mkSchema(Schema::Str);
    s->fields = {{"id", false, mkSchema(Schema::Int)},
                 {"text", false, mkSchema(Schema::Str)},
                 {"extra", true, mkSchema(Schema::Int)},
                 {"list", false, list}};
    return s;
  }();
  return s;
}

// Does the document stay within what is agreed: no duplicate keys, no
// numbers that do not fit?
bool inDomain(const J& j, int depth = 0) {
  if (depth > 100) return false;
  if (j.kind == J::Int) return !j.big;
  if (j.kind == J::Num) return std::isfinite(j.d);
  std::set<std::string> keys;
  for (auto& kv : j.o) {
    if (!keys.insert(kv.first).second || !inDomain(kv.second, depth + 1)) return false;
  }
  for (auto& e : j.a) {
    if (!inDomain(e, depth + 1)) return false;
  }
  return true;
}

enum Expect {
  kUnjudged,  // dispatched or reported
  kRejected,  // reported, no handler
  kDispatched,
  kAnswer,    // completes a pending request
};

struct Frame {
  std::string body;
  Expect expect = kUnjudged;
  std::string handler;  // of kDispatched
  J args;
  int64_t seq = 0;      // of kAnswer
  const char* what = "";
};

const char* const realNames[] = {"initialize", "setBreakpoints", "evaluate", "launch",
                                 "disconnect", "output",         "stopped",  "module"};

J realMessage(Case& c) {
  static const std::vector<std::string> docs = {
      R"({"seq":1,"type":"request","command":"initialize","arguments":{"adapterID":"a","clientID":"x","columnsStartAt1":true,"linesStartAt1":false,"pathFormat":"path"}})",
      R"({"seq":1,"type":"request","command":"setBreakpoints","arguments":{"source":{"name":"n","path":"p","sourceReference":3,"checksums":[{"algorithm":"MD5","checksum":"0"}],"sources":[],"adapterData":{"a":[1,2,{"b":null}]}},"breakpoints":[{"line":1,"column":2,"condition":"x"},{"line":3}],"lines":[1,2],"sourceModified":false}})",
      R"({"seq":1,"type":"request","command":"evaluate","arguments":{"expression":"1+1","frameId":3,"context":"watch","format":{"hex":true}}})",
      R"({"seq":1,"type":"request","command":"launch","arguments":{"noDebug":true,"__restart":{"a":[]}}})",
      R"({"seq":1,"type":"request","command":"disconnect"})",
      R"({"seq":1,"type":"event","event":"output","body":{"output":"hello","category":"stdout","variablesReference":1.0,"data":[1,null,"x"]}})",
      R"({"seq":1,"type":"event","event":"stopped","body":{"reason":"step","threadId":1,"hitBreakpointIds":[1,2,3],"allThreadsStopped":true}})",
      R"({"seq":1,"type":"event","event":"module","body":{"reason":"new","module":{"id":1,"name":"m","isOptimized":false}}})",
  };
  J j;
  parseJson(c.pick(docs), &j);
  return j;
}

const char* const vNames[] = {"v/req1", "v/req2", "v-ev1", "v-ev2"};

J validMessage(Case& c, int64_t id, const std::vector<int64_t>& pending) {
  Val v = genVal(c, id);
  switch (c.draw(6)) {
    case 0: return requestJ(genInt(c), "v/req1", toJ(v));
    case 1: return requestJ(id, "v/req2", toJ(v));
    case 2: return eventJ(id, "v-ev1", toJ(v));
    case 3: return eventJ(id, "v-ev2", toJ(v));
    case 4: return responseJ(id, c.flip() ? c.pick(pending) : genInt(c), "v/req1", toJ(v));
    default: return failureJ(id, c.flip() ? c.pick(pending) : genInt(c), "v/req1", genText(c, 8));
  }
}

// What must happen with a document that is strictly valid JSON.
void judge(Frame& f, const J& j, const std::set<int64_t>& pending) {
  f.expect = kRejected;
  if (j.kind != J::Obj) return;
  auto type = j.get("type");
  auto seq = j.get("seq");
  if (!type || type->kind != J::Str || !seq || seq->kind != J::Int) return;
  const char* key = type->s == "request" ? "command" : type->s == "event" ? "event" : nullptr;
  if (key) {
    auto name = j.get(key);
    if (!name || name->kind != J::Str) return;
    for (auto n : realNames) {
      if (name->s == n) {
        f.expect = kUnjudged;
        return;
      }
    }
    bool known = false;
    for (auto n : vNames) known = known || (name->s == n && (n[1] == '/') == (type->s == "request"));
    if (!known) return;
    auto args = j.get(type->s == "request" ? "arguments" : "body");
    J out;
    if (!args || !valSchema()->decode(*args, &out)) return;
    f.expect = kDispatched;
    f.handler = name->s;
    f.args = out;
    return;
  }
  if (type->s == "response") {
    auto r = j.get("request_seq");
    if (!r || r->kind != J::Int || !pending.count(r->i)) return;
    f.seq = r->i;
    f.expect = kAnswer;
    auto ok = j.get("success");
    if (!ok || ok->kind != J::Bool) f.expect = kUnjudged;
  }
}

std::string mutateBytes(Case& c, std::string s) {
  for (size_t n = 1 + c.draw(4); n > 0; n--) {
    size_t p = s.empty() ? 0 : c.draw(s.size());
    switch (c.draw(8)) {
      case 0:
        if (!s.empty()) s[p] = char(c.draw(256));
        break;
      case 1:
        if (!s.empty()) s.erase(p, 1 + c.draw(4));
        break;
      case 2:
        s.insert(p, c.bytes(1 + c.draw(3)));
        break;
      case 3: {
        static const std::vector<std::string> t = {
            "\"", "{", "}", "[", "]", ",", ":", "\\", "\\u", "\\ud800", "null", "true", "-",
            "1e999", "99999999999999999999", "-9223372036854775809", "1.", "0x1", "NaN", "Infinity",
            "//", "/*", "*/", "\xff", "\xed\xa0\x80", std::string(1, '\0'), "\n", "\\u0000",
            "9223372036854775808", "1e-999", "\xef\xbb\xbf", "'", "#", "\\\"", "[[[[[[", "{\"a\":"};
        s.insert(p, c.pick(t));
        break;
      }
      case 4:
        s.resize(p);
        break;
      case 5: {  // duplicated part
        size_t l = std::min<size_t>(1 + c.draw(40), s.size() - p);
        s.insert(c.draw(s.size() + 1), s.substr(p, l));
        break;
      }
      case 6:
        if (!s.empty()) s[p] = char(s[p] ^ (1 << c.draw(8)));
        break;
      default:
        std::swap(s[p % std::max<size_t>(1, s.size())], s[s.empty() ? 0 : c.draw(s.size())]);
    }
  }
  if (s.empty()) s = " ";
  return s;
}

std::string type(const J& j) {
  auto t = j.get("type");
  return t ? t->s : "";
}

Frame genFrame(Case& c, int64_t id, const std::vector<int64_t>& sent, std::set<int64_t>& pending,
               bool& sure) {
  Frame f;
  J j = c.chance(1, 5) ? realMessage(c) : validMessage(c, id, sent);
  JsonStyle st;
  st.c = &c;
  st.spaces = c.chance(1, 4);
  st.escapes = c.chance(1, 4);
  bool forced = false;
  switch (c.draw(10)) {
    case 0:
    case 1:
      f.what = "valid";
      f.body = toJson(j, st);
      break;
    case 2:
    case 3: {
      f.what = "changed document";
      Gen g;
      g.depth = 2;
      if (c.chance(1, 3)) {
        // Names that are reported.
        static const std::vector<std::string> t = {
            "%s%n%s%s%s%s%s%n", "%", "100%d%s%s%s%s", std::string(2047, 'x'),
            std::string(2048, 'y'), std::string(70000, 'z'), std::string("a\0b", 3), "",
            "%999999d", "v/req1 ", "V/REQ1", "v/req1\n", "requests", "event ", "\xef\xbb\xbf",
            "{}", "'", "\"", "\\"};
        static const std::vector<const char*> k = {"type", "command", "event", "message"};
        for (auto key : k) {
          auto v = j.get(key);
          if (v && c.flip()) *v = J::str(c.pick(t));
        }
        if (c.flip()) {
          f.body = toJson(j, st);
          break;
        }
      }
      for (size_t n = 1 + c.draw(3); n > 0; n--) mutate(c, j, nullptr, g);
      f.body = toJson(j, st);
      break;
    }
    case 4:
      f.what = "changed bytes";
      f.body = mutateBytes(c, toJson(j, st));
      break;
    case 5: {
      f.what = "truncated";
      f.body = toJson(j, st);
      f.body.resize(1 + c.draw(f.body.size() - 1));
      forced = true;
      break;
    }
    case 6: {
      f.what = "extra data, comma or comment";
      static const std::vector<std::string> t = {"}", "x", "{}", ",", "]", " {}", "\"", "0",
                                                 "null", "\n1"};
      f.body = toJson(j, st);
      if (c.chance(1, 4)) {
        // Comments are not part of JSON. (JsonCpp accepts some within objects.)
        static const std::vector<std::string> k = {"/**/", "// x\n", "/* \" */", "#\n"};
        f.body.insert(c.flip() ? 0 : f.body.size(), c.pick(k));
      } else if (c.chance(1, 4)) {
        f.body.insert(f.body.size() - 1, ",");
      } else {
        f.body += c.pick(t);
      }
      forced = true;
      break;
    }
    case 7: {
      f.what = "deep";
      static const size_t limits[] = {60, 60, 60, 60, 60, 60, 60, 60, 150, 150, 1200, 200000};
      size_t d = c.draw(limits[c.draw(12)]);
      bool arr = c.flip();
      std::string open = arr ? "[" : "{\"a\":", close = arr ? "]" : "}";
      std::string deep;
      for (size_t i = 0; i < d; i++) deep += open;
      if (c.flip()) {
        deep += "1";
        for (size_t i = 0; i < d; i++) deep += close;
      }
      switch (c.draw(3)) {
        case 0:
          f.body = deep.empty() ? "1" : deep;
          break;
        case 1:
          f.body = "{\"seq\":1,\"type\":\"event\",\"event\":\"output\",\"body\":{\"output\":\"\",\"data\":" + deep + "}}";
          break;
        default:
          f.body = "{\"x\":" + deep + "," + toJson(j).substr(1);
      }
      if (deep.size() > 50000) {
        // Parsed by the library only.
        f.expect = kUnjudged;
        sure = false;
        return f;
      }
      break;
    }
    case 8: {
      f.what = "brackets in strings";
      // Strings that contain brackets, quotes and backslashes next to nested or
      // many values: what is in a string is no structure.
      auto many = [&] { return c.draw(c.chance(1, 3) ? 3000 : 40); };
      auto run = [&](const char* set) { return std::string(many(), set[c.draw(2)]); };
      std::string text;
      for (size_t n = 1 + c.draw(4); n > 0; n--) {
        switch (c.draw(4)) {
          case 0: text += run("[{"); break;
          case 1: text += run("]}"); break;
          case 2: text += std::string(c.draw(4), '\\'); break;
          default: text += std::string(1 + c.draw(2), '"'); break;
        }
      }
      if (c.chance(1, 8)) {
        // As many closing brackets in a string as there are opening ones.
        size_t d = c.draw(100000);
        std::string deep(d, '[');
        if (c.flip()) deep += "1" + std::string(d, ']');
        f.body = "{\"x\":" + toJson(J::str(text + std::string(d, c.flip() ? ']' : '}'))) +
                 ",\"seq\":1,\"type\":\"event\",\"event\":\"output\",\"body\":{\"output\":\"\",\"data\":" +
                 deep + "}}";
        f.expect = kUnjudged;
        sure = false;
        return f;
      }
      J wide = J::arr();
      for (size_t n = many(); n > 0; n--) wide.a.push_back(c.flip() ? J::arr() : J::obj());
      const char* key = type(j) == "request" ? "arguments" : "body";
      auto args = j.get(key);
      auto t = args ? args->get("text") : nullptr;
      if (t) *t = J::str(text);
      std::vector<std::string> parts;
      if (c.flip()) parts.push_back("\"w\":" + toJson(wide));
      if (c.flip()) parts.push_back("\"s\":" + toJson(J::str(text)));
      if (c.flip()) parts.push_back(toJson(J::str(text)) + ":0");
      std::string deep;
      if (c.chance(1, 3)) {
        size_t d = c.draw(c.flip() ? 60 : 100000);
        deep = std::string(d, '[') + (c.flip() ? "1" + std::string(d, ']') : "");
        parts.push_back("\"d\":" + deep);
      }
      std::string front, back;
      for (auto& x : parts) {
        if (c.flip()) front += x + ","; else back += "," + x;
      }
      f.body = toJson(j);
      f.body = "{" + front + f.body.substr(1, f.body.size() - 2) + back + "}";
      if (deep.size() > 20000) {
        f.expect = kUnjudged;
        sure = false;
        return f;
      }
      break;
    }
    default:
      f.what = "any bytes";
      f.body = anyBody(c);
  }
  if (f.body.empty()) f.body = " ";
  J parsed;
  if (forced) {
    f.expect = kRejected;
  } else if (parseJson(f.body, &parsed)) {
    if (inDomain(parsed)) judge(f, parsed, pending);
  } else {
    size_t p = f.body.find_first_not_of(" \t\r\n");
    bool bom = f.body.compare(0, 1, "\xef") == 0;
    if (!bom && (p == std::string::npos || f.body[p] != '{')) f.expect = kRejected;
  }
  if (f.expect == kUnjudged) sure = false;
  if (f.expect == kAnswer) {
    if (!sure) f.expect = kUnjudged;
    pending.erase(f.seq);
  }
  return f;
}

void property(Case& c) {
  size_t n = 1 + c.draw(6);
  if (c.chance(1, 200)) n = 60 + c.draw(200);
  size_t requests = 1 + c.draw(3);
  std::vector<int64_t> sent;
  std::set<int64_t> pending;
  for (size_t i = 0; i < requests; i++) {
    sent.push_back(int64_t(i) + 1);
    pending.insert(int64_t(i) + 1);
  }
  bool sure = true;  // that we know which requests are pending
  bool close = c.chance(1, 4);
  bool junk = !close && c.flip();
  std::vector<Frame> frames;
  std::string stream;
  for (size_t i = 0; i < n; i++) {
    frames.push_back(genFrame(c, int64_t(i) + 1, sent, pending, sure));
    if (junk && c.chance(1, 3)) stream += garbage(c);
    stream += frame(frames.back().body);
  }
  // The session still serves.
  {
    Frame f;
    Val v = genVal(c, 99);
    f.body = toJson(requestJ(99, "v/req1", toJ(v)));
    f.what = "last";
    f.expect = kDispatched;
    f.handler = "v/req1";
    f.args = toJ(v);
    frames.push_back(f);
    stream += frame(f.body);
  }
  auto plan = chunkPlan(c);
  if (c.wantDescription()) {
    std::string d;
    for (auto& f : frames) d += std::string(f.what) + " " + pbt::esc(f.body, 120) + " | ";
    c.describe(d);
  }

  pbt::leakCheck(c, [&] {
    auto in = std::make_shared<ChunkReader>(stream, plan);
    auto out = std::make_shared<BufferWriter>();
    auto session = dap::Session::create();
    std::vector<std::string> errors;
    std::vector<std::pair<std::string, J>> calls;
    session->onError([&](const char* m) { errors.push_back(m); });
    auto called = [&](const char* name, const Val& v) { calls.push_back({name, toJ(v)}); };
    session->registerHandler([&](const dap::VReq1& r) {
      called("v/req1", fromMsg(r));
      return dap::VRes1();
    });
    session->registerHandler([&](const dap::VReq2& r) {
      called("v/req2", fromMsg(r));
      return dap::Error("no");
    });
    session->registerHandler([&](const dap::VEv1& r) { called("v-ev1", fromMsg(r)); });
    session->registerHandler([&](const dap::VEv2& r) { called("v-ev2", fromMsg(r)); });
    auto real = [&](const char* name) { calls.push_back({name, J()}); };
    session->registerHandler([&](const dap::InitializeRequest&) { real("initialize"); return dap::InitializeResponse(); });
    session->registerHandler([&](const dap::SetBreakpointsRequest&) { real("setBreakpoints"); return dap::SetBreakpointsResponse(); });
    session->registerHandler([&](const dap::EvaluateRequest&) { real("evaluate"); return dap::EvaluateResponse(); });
    session->registerHandler([&](const dap::LaunchRequest&) { real("launch"); return dap::LaunchResponse(); });
    session->registerHandler([&](const dap::DisconnectRequest&) { real("disconnect"); return dap::DisconnectResponse(); });
    session->registerHandler([&](const dap::OutputEvent&) { real("output"); });
    session->registerHandler([&](const dap::StoppedEvent&) { real("stopped"); });
    session->registerHandler([&](const dap::ModuleEvent&) { real("module"); });
    if (close) session->setOnInvalidData(dap::kClose);
    session->connect(in, out);
    std::vector<dap::future<dap::ResponseOrError<dap::VRes1>>> futures;
    for (size_t i = 0; i < requests; i++) futures.push_back(session->send(dap::VReq1()));
    for (size_t i = 0; i < frames.size(); i++) {
      auto& f = frames[i];
      errors.clear();
      calls.clear();
      auto ready = [&] {
        size_t r = 0;
        for (auto& x : futures) {
          r += x.wait_for(std::chrono::seconds(0)) == dap::future_status::ready;
        }
        return r;
      };
      size_t answered = ready();
      if (auto payload = session->getPayload()) payload();
      switch (f.expect) {
        case kUnjudged:
          if (calls.size() > 1) {
            c.fail("message %zu invokes %zu handlers: %s", i, calls.size(),
                   pbt::esc(f.body, 600).c_str());
          }
          if (calls.empty() && errors.empty() && ready() == answered) {
            c.fail("message %zu has no effect and no error is reported: %s", i,
                   pbt::esc(f.body, 600).c_str());
          }
          break;
        case kRejected:
          if (!calls.empty()) {
            c.fail("message %zu (%s) is no message for it, but the handler of '%s' is invoked: %s",
                   i, f.what, calls[0].first.c_str(), pbt::esc(f.body, 600).c_str());
          }
          if (errors.empty()) {
            c.fail("message %zu (%s) cannot be dispatched, but no error is reported: %s", i,
                   f.what, pbt::esc(f.body, 600).c_str());
          }
          break;
        case kDispatched:
          if (calls.size() != 1 || calls[0].first != f.handler || !same(calls[0].second, f.args)) {
            c.fail("message %zu (%s) is not dispatched: %s (%s)", i, f.what,
                   pbt::esc(f.body, 600).c_str(), errors.empty() ? "" : errors[0].c_str());
          }
          if (!errors.empty()) {
            c.fail("message %zu (%s) is valid, but reported: %s", i, f.what, errors[0].c_str());
          }
          break;
        case kAnswer:
          if (!calls.empty()) c.fail("a response invokes the handler of '%s'", calls[0].first.c_str());
          if (!errors.empty()) c.fail("a response is reported: %s", errors[0].c_str());
          if (futures[size_t(f.seq) - 1].wait_for(std::chrono::seconds(0)) !=
              dap::future_status::ready) {
            c.fail("the response %s does not complete its request", pbt::esc(f.body, 600).c_str());
          }
          break;
      }
    }
    if (in->pos != stream.size()) {
      c.fail("%zu of %zu bytes are read", in->pos, stream.size());
    }
    FrameParser p;
    p.all(c, out->data);
  });

  bool bad = false;
  for (auto& f : frames) {
    c.label(f.what);
    if (f.expect == kRejected) c.label("must be reported");
    if (f.expect == kUnjudged) c.label("unjudged");
    bad = bad || strcmp(f.what, "valid") != 0;
  }
  if (frames.size() > 1 && bad) c.nontrivial(stream);
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Options o;
  o.name = "c04_robust";
  o.rule =
      "A case is a session (pull mode) with handlers of test and DAP types and "
      "1-3 pending requests, that receives 1-6 generated messages: valid, changed "
      "as documents or as bytes, truncated, with extra data, deeply nested, with "
      "brackets and quotes in strings, any "
      "bytes; then a valid request. Strictly valid documents and definitely "
      "invalid ones are judged by a model of the session, the others must only do "
      "no harm; ASan/UBSan and the allocation count watch. Non-trivial: at least "
      "one message is not valid; distinct: by the stream.";
  o.property = property;
  o.quickCases = 50000;
  o.thoroughCases = 10000000;
  o.quickCap = 15;
  return pbt::run(argc, argv, o);
}
