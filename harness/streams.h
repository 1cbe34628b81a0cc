// In-memory Readers and Writers whose chunking and faults are drawn by a Case.
#pragma once

#include "dap/io.h"
#include "pbt.h"

#include <algorithm>
#include <memory>
#include <string.h>
#include <string>
#include <vector>

namespace h {

// ChunkReader serves a byte string in generated chunks, then reports the end of
// the stream (0 bytes).
class ChunkReader : public dap::Reader {
 public:
  ChunkReader(std::string data, std::vector<size_t> plan)
      : data(std::move(data)), plan(std::move(plan)) {}

  bool isOpen() override { return !closed; }
  void close() override {
    closed = true;
    closes++;
  }
  size_t read(void* buffer, size_t n) override {
    reads++;
    if (closed) {
      readsAfterClose++;
      return 0;
    }
    if (n == 0) return 0;
    if (pos == data.size()) {
      ends++;
      return 0;
    }
    size_t k = plan.empty() ? n : plan[step++ % plan.size()];
    k = std::max<size_t>(1, std::min({k, n, data.size() - pos}));
    memcpy(buffer, data.data() + pos, k);
    pos += k;
    if (k < n) splits++;
    return k;
  }

  std::string data;
  std::vector<size_t> plan;
  size_t pos = 0, step = 0, splits = 0;
  size_t reads = 0, readsAfterClose = 0, ends = 0, closes = 0;
  bool closed = false;
};

inline std::vector<size_t> chunkPlan(pbt::Case& c) {
  std::vector<size_t> plan;
  switch (c.draw(5)) {
    case 0:
      break;  // as much as asked for
    case 1:
      plan = {1};
      break;
    case 2:
      plan = {size_t(1 + c.draw(8))};
      break;
    default: {
      size_t n = 1 + c.draw(10);
      for (size_t i = 0; i < n; i++) {
        plan.push_back(1 + c.size(300));
      }
    }
  }
  return plan;
}

// BufferWriter collects everything that is written to it.
class BufferWriter : public dap::Writer {
 public:
  bool isOpen() override { return !closed; }
  void close() override { closed = true; }
  bool write(const void* buffer, size_t n) override {
    if (closed) return false;
    data.append(static_cast<const char*>(buffer), n);
    writes++;
    return true;
  }
  std::string data;
  size_t writes = 0;
  bool closed = false;
};

inline std::string frame(const std::string& body) {
  return "Content-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
}

}  // namespace h
