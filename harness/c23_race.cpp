// C23: a file stream that is closed by several threads closes its file once.
#include "streams.h"
#include "vsched.h"

#include "dap/io.h"

#include <stdio.h>

#include <memory>
#include <string>
#include <thread>
#include <vector>

namespace {
using pbt::Case;

struct Mem {
  std::string data;
  int closes = 0;
  static ssize_t wr(void* c, const char* b, size_t n) {
    static_cast<Mem*>(c)->data.append(b, n);
    return ssize_t(n);
  }
  static int cl(void* c) {
    static_cast<Mem*>(c)->closes++;
    return 0;
  }
};

void property(Case& c) {
  bool closable = !c.chance(1, 5);
  int T = 1 + int(c.draw(4));
  bool writeFirst = c.flip();
  std::vector<std::vector<int>> ops;
  std::string desc = closable ? "closable:" : "not closable:";
  size_t total = 0;
  for (int t = 0; t < T; t++) {
    std::vector<int> v;
    size_t n = 1 + c.draw(3);
    for (size_t i = 0; i < n; i++) v.push_back(int(c.draw(3)));
    total += n;
    desc += t ? " |" : "";
    for (int o : v) desc += o == 0 ? " close" : o == 1 ? " drop" : " isOpen";
    ops.push_back(v);
  }
  vs::run(c, [&] {
    Mem m;
    FILE* f;
    std::shared_ptr<dap::ReaderWriter> s;
    {
      vs::Quiet q;
      cookie_io_functions_t io = {nullptr, Mem::wr, nullptr, Mem::cl};
      f = fopencookie(&m, "w", io);
    }
    s = dap::file(f, closable);
    if (writeFirst && !s->write("abc", 3)) c.fail("a write fails");
    std::vector<std::thread> threads;
    bool closed = false;
    for (int t = 0; t < T; t++) {
      auto ref = s;
      threads.emplace_back([&, t, ref]() mutable {
        for (int o : ops[size_t(t)]) {
          if (!ref) break;
          switch (o) {
            case 0:
              ref->close();
              {
                vs::Quiet q;
                closed = closable;
              }
              break;
            case 1:
              ref.reset();
              break;
            default: {
              bool was;
              {
                vs::Quiet q;
                was = closed;
              }
              if (ref->isOpen() && was) c.fail("a closed file is open");
            }
          }
        }
        ref.reset();
      });
    }
    s.reset();
    for (auto& t : threads) t.join();
    vs::Quiet q;
    if (m.closes != int(closable)) {
      c.fail("the %s file was closed %d times", closable ? "closable" : "not closable", m.closes);
    }
    if (!closable) fclose(f);
    if (m.data != (writeFirst ? "abc" : "")) c.fail("the file has other bytes");
  });
  c.describe(desc);
  c.label("concurrent close");
  if (T > 1) c.nontrivial(desc + std::to_string(vs::switches()) + "/" + std::to_string(vs::preemptions()));
}

}  // namespace

int main(int argc, char** argv) {
  pbt::Options o;
  o.name = "c23_race";
  o.rule =
      "A case is a schedule plus 1-4 threads that close, query and release one "
      "file stream; the closes of the file are counted. Non-trivial: several "
      "threads; distinct: operations, switches and preemptions.";
  o.property = property;
  o.quickCases = 100000;
  o.thoroughCases = 3000000;
  o.quickCap = 10;
  return pbt::run(argc, argv, o);
}
