// Sessions under generated schedules: transports, test messages, raw peers.
#pragma once

#include "msgs.h"
#include "streams.h"
#include "vsched.h"

#include "dap/io.h"
#include "dap/session.h"

#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <thread>
#include <vector>

namespace h {

////////////////////////////////////////////////////////////////////////////////
// Transports
////////////////////////////////////////////////////////////////////////////////

// In is the reader of a session: the harness feeds it.
class In : public dap::Reader {
 public:
  explicit In(Case& c, bool closesAtEof = false)
      : plan(chunkPlan(c)), closesAtEof(closesAtEof) {}

  bool isOpen() override {
    vs::Quiet q;
    opens++;
    return !closed;
  }
  void close() override {
    vs::yield();
    vs::Quiet q;
    closes++;
    closed = true;
  }
  size_t read(void* buffer, size_t n) override {
    {
      vs::Quiet q;
      reads++;
      if (ended) readsAfterEnd++;
      reading++;
      if (reading > 1) concurrent = true;
    }
    vs::waitUntil("the peer sends", [&] {
      return closed || eof || pos < data.size();
    });
    vs::Quiet q;
    reading--;
    if (closed) {
      ended = true;
      return 0;
    }
    if (n == 0) return 0;
    if (pos == data.size()) {
      ended = true;
      if (closesAtEof) closed = true;
      return 0;
    }
    size_t k = plan.empty() ? n : plan[step++ % plan.size()];
    if (data.size() - pos > 8192) k *= 1000;
    k = std::max<size_t>(1, std::min({k, n, data.size() - pos}));
    memcpy(buffer, data.data() + pos, k);
    pos += k;
    return k;
  }

  // Used by the harness.
  void feed(const std::string& s) {
    vs::yield();
    vs::Quiet q;
    data += s;
  }
  void end() {
    vs::yield();
    vs::Quiet q;
    eof = true;
  }

  std::string data;
  std::vector<size_t> plan;
  size_t pos = 0, step = 0, reads = 0, readsAfterEnd = 0, closes = 0, opens = 0;
  int reading = 0;
  bool closed = false, eof = false, ended = false, concurrent = false;
  bool closesAtEof;
};

// Out is the writer of a session: it accepts the bytes of a write in pieces, as
// a socket does.
class Out : public dap::Writer {
 public:
  explicit Out(Case& c) : pieces(1 + c.draw(3)) {}

  bool isOpen() override {
    vs::Quiet q;
    return !closed;
  }
  void close() override {
    vs::yield();
    vs::Quiet q;
    closes++;
    closed = true;
  }
  bool write(const void* buffer, size_t n) override {
    const char* p = static_cast<const char*>(buffer);
    size_t part = 0, parts = 1;
    {
      vs::Quiet q;
      size_t index = writes++;
      if (closed) return false;
      if (failWrite && failWrite(index, n)) {
        failures++;
        return false;
      }
      parts = std::max<size_t>(1, std::min(pieces, n));
    }
    for (part = 0; part < parts; part++) {
      // A peer that does not read blocks the writer until the stream is closed.
      if (stallAt) {
        vs::waitUntil("the peer reads", [&] { return closed || !stallAt || data.size() < stallAt; });
      } else {
        vs::yield();
      }
      vs::Quiet q;
      if (closed) return false;
      size_t b = n * part / parts, e = n * (part + 1) / parts;
      data.append(p + b, e - b);
      if (closeWhen && part + 1 == parts && closeWhen()) closed = true;
    }
    return true;
  }

  std::string data;
  std::function<bool(size_t index, size_t size)> failWrite;
  std::function<bool()> closeWhen;  // closed by the peer after a write
  size_t pieces;
  size_t stallAt = 0;
  size_t writes = 0, closes = 0, failures = 0;
  bool closed = false;
};

// Runs every code path once, so that the function-local statics of the library
// are initialized the same way for every case of this process.
inline void warmUp() {
  auto s1 = dap::Session::create();
  auto s2 = dap::Session::create();
  auto p1 = dap::pipe(), p2 = dap::pipe();
  s1->onError([](const char*) {});
  s2->onError([](const char*) {});
  s2->registerHandler([](const dap::VReq1& r) { return toMsg<dap::VRes1>(fromMsg(r)); });
  s2->registerHandler([](const dap::VReq2& r) -> dap::ResponseOrError<dap::VRes2> {
    return dap::Error("x");
  });
  s2->registerHandler([](const dap::VReq3& r) { return dap::Error("x"); });
  s2->registerHandler([](const dap::VReq4& r, std::function<void(dap::VRes4)> cb) { cb({}); });
  s2->registerHandler([](const dap::VReq5& r,
                         std::function<void(dap::ResponseOrError<dap::VRes5>)> cb) {
    cb(dap::Error("x"));
  });
  s2->registerHandler([](const dap::VEv1&) {});
  s2->registerHandler([](const dap::VEv2&) {});
  s2->registerHandler([](const dap::VEv3&) {});
  s2->registerSentHandler([](const dap::ResponseOrError<dap::VRes1>&) {});
  s2->registerSentHandler([](const dap::ResponseOrError<dap::VRes2>&) {});
  s2->registerSentHandler([](const dap::ResponseOrError<dap::VRes3>&) {});
  s2->registerSentHandler([](const dap::ResponseOrError<dap::VRes4>&) {});
  s2->registerSentHandler([](const dap::ResponseOrError<dap::VRes5>&) {});
  s1->bind(p1, p2);
  s2->bind(p2, p1);
  Val v;
  v.id = 1;
  v.hasExtra = true;
  v.list = {"a"};
  s1->send(toMsg<dap::VEv1>(v));
  s1->send(toMsg<dap::VEv2>(v));
  s1->send(toMsg<dap::VEv3>(v));
  s1->send(toMsg<dap::VReq1>(v)).get();
  s1->send(toMsg<dap::VReq2>(v)).get();
  s1->send(toMsg<dap::VReq3>(v)).get();
  s1->send(toMsg<dap::VReq4>(v)).get();
  s1->send(toMsg<dap::VReq5>(v)).get();
}

}  // namespace h
