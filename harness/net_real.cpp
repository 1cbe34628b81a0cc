// C24, C25, C26 over the kernel's loopback network (NET_MODE).
#include "pbt.h"

#include "dap/io.h"
#include "dap/network.h"

#include <arpa/inet.h>
#include <dirent.h>
#include <errno.h>
#include <netinet/in.h>
#include <poll.h>
#include <signal.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

namespace {

// Injected faults: calls of the code under test are interrupted, or transfer
// only a part.
std::atomic<unsigned> faultPartial{0}, faultEintr{0};
std::atomic<uint64_t> faultSeed{0}, partials{0}, eintrs{0};

uint64_t faultDraw() {
  uint64_t z = faultSeed.fetch_add(0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
bool interruptNow() {
  if (faultEintr == 0 || faultDraw() % 16 >= faultEintr) return false;
  eintrs++;
  errno = EINTR;
  return true;
}
size_t some(size_t n) {
  if (n < 2 || faultPartial == 0 || faultDraw() % 16 >= faultPartial) return n;
  partials++;
  return 1 + faultDraw() % (n - 1);
}

}  // namespace

extern "C" {
ssize_t send(int fd, const void* b, size_t n, int flags) {
  if (interruptNow()) return -1;
  return syscall(SYS_sendto, fd, b, some(n), flags, nullptr, 0);
}
ssize_t recv(int fd, void* b, size_t n, int flags) {
  if (interruptNow()) return -1;
  return syscall(SYS_recvfrom, fd, b, some(n), flags, nullptr, nullptr);
}
int accept(int fd, sockaddr* a, socklen_t* l) {
  if (interruptNow()) return -1;
  return int(syscall(SYS_accept, fd, a, l));
}
int poll(pollfd* p, nfds_t n, int t) {
  if (interruptNow()) return -1;
  return int(syscall(SYS_poll, p, n, t));
}
}

namespace {

using Clock = std::chrono::steady_clock;

char byteAt(int end, size_t off) {
  uint64_t x = (uint64_t(off) + 1) * 0x9E3779B97F4A7C15ull + uint64_t(end) * 77;
  return char((x >> 40) ^ (off >> 8));
}
std::string stretch(int end, size_t off, size_t n) {
  std::string s(n, 0);
  for (size_t i = 0; i < n; i++) s[i] = byteAt(end, off + i);
  return s;
}

// An address of the loopback network for this process.
std::string address() {
  unsigned p = unsigned(getpid());
  return pbt::fmt("127.%u.%u.1", 1 + ((p >> 8) & 0x7f), p & 0xff);
}
constexpr int kPort = 21987;

size_t countDir(const char* path) {
  size_t n = 0;
  if (auto d = opendir(path)) {
    while (readdir(d)) n++;
    closedir(d);
  }
  return n;
}
size_t fds() { return countDir("/proc/self/fd"); }
// Threads end a moment after they were joined.
bool threadsAre(size_t want) {
  for (int i = 0; i < 2000; i++) {
    if (countDir("/proc/self/task") <= want) return true;
    std::this_thread::sleep_for(std::chrono::milliseconds(1));
  }
  return false;
}

sockaddr_in sockAddr(int port) {
  sockaddr_in a = {};
  a.sin_family = AF_INET;
  a.sin_port = htons(uint16_t(port));
  inet_pton(AF_INET, address().c_str(), &a.sin_addr);
  return a;
}
int rawSocket() { return int(syscall(SYS_socket, AF_INET, SOCK_STREAM, 0)); }
int rawListen(int port, int backlog) {
  int s = rawSocket();
  int on = 1;
  setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &on, sizeof(on));
  auto a = sockAddr(port);
  if (syscall(SYS_bind, s, &a, sizeof(a)) != 0 || syscall(SYS_listen, s, backlog) != 0) {
    syscall(SYS_close, s);
    return -1;
  }
  return s;
}
int rawConnect(int port) {
  int s = rawSocket();
  auto a = sockAddr(port);
  if (syscall(SYS_connect, s, &a, sizeof(a)) != 0) {
    syscall(SYS_close, s);
    return -1;
  }
  return s;
}
void rawClose(int s, bool reset) {
  if (reset) {
    struct linger l = {1, 0};
    setsockopt(s, SOL_SOCKET, SO_LINGER, &l, sizeof(l));
  }
  syscall(SYS_close, s);
}
bool rawSend(int s, const std::string& b) {
  size_t k = 0;
  while (k < b.size()) {
    auto r = syscall(SYS_sendto, s, b.data() + k, b.size() - k, MSG_NOSIGNAL, nullptr, 0);
    if (r <= 0) return false;
    k += size_t(r);
  }
  return true;
}
std::string rawRecv(int s, size_t n) {
  std::string out;
  std::vector<char> buf(65536);
  while (out.size() < n) {
    auto r = syscall(SYS_recvfrom, s, buf.data(), std::min(buf.size(), n - out.size()), 0, nullptr,
                     nullptr);
    if (r <= 0) break;
    out.append(buf.data(), size_t(r));
  }
  return out;
}

struct Flag {
  std::mutex m;
  std::condition_variable cv;
  bool set = false;
  void raise() {
    std::unique_lock<std::mutex> l(m);
    set = true;
    cv.notify_all();
  }
  void wait() {
    std::unique_lock<std::mutex> l(m);
    cv.wait(l, [&] { return set; });
  }
};

void setFaults(pbt::Case& c) {
  faultPartial = unsigned(c.pick(std::vector<int>{0, 2, 12}));
  faultEintr = unsigned(c.pick(std::vector<int>{0, 1, 8}));
  faultSeed = c.bits();
}
void noFaults() {
  faultPartial = 0;
  faultEintr = 0;
}

#if NET_MODE == 24
void property(pbt::Case& c) {
  signal(SIGPIPE, SIG_DFL);
  size_t fds0 = fds();
  setFaults(c);
  // Who is at the other end of the dap stream under test, and how it ends.
  bool dapPeer = c.flip();
  bool client = c.flip();  // the stream under test is the client's
  int ending = int(c.draw(5));  // 0 close, 1 peer closes, 2 peer resets, 3 close while blocked
                                // in read, 4 in write
  if (dapPeer && ending == 2) ending = 1;
  size_t maxWrite = c.pick(std::vector<size_t>{20, 5000, 300000});
  std::vector<size_t> writes[2];
  size_t total[2] = {0, 0};
  std::string desc = pbt::fmt("%s against %s, ending %d, faults %u/%u:", client ? "client" : "server",
                              dapPeer ? "dap" : "raw", ending, faultPartial.load(),
                              faultEintr.load());
  uint64_t h = uint64_t(ending) + dapPeer * 16u + client * 32u;
  for (int e = 0; e < 2; e++) {
    size_t n = c.size(5);
    desc += e ? " in" : " out";
    for (size_t i = 0; i < n; i++) {
      writes[e].push_back(c.size(maxWrite));
      total[e] += writes[e].back();
      desc += pbt::fmt(" %zu", writes[e].back());
      h = h * 31 + writes[e].back();
    }
  }
  size_t readSize = 1 + c.size(maxWrite * 2);
  c.describe(desc);
  {
    // Connect.
    std::shared_ptr<dap::ReaderWriter> rw, peer;
    int raw = -1;
    if (client && !dapPeer) {
      int l = rawListen(kPort, 5);
      if (l < 0) return;  // the port is taken by something else
      rw = dap::net::connect(address().c_str(), kPort, c.flip() ? 20000 : 0);
      if (!rw) c.fail("connect to a listening port failed");
      raw = int(syscall(SYS_accept, l, nullptr, nullptr));
      syscall(SYS_close, l);
    } else {
      auto server = dap::net::Server::create();
      std::shared_ptr<dap::ReaderWriter> got;
      Flag f;
      if (!server->start(address().c_str(), kPort,
                         [&](const std::shared_ptr<dap::ReaderWriter>& s) {
                           got = s;
                           f.raise();
                         },
                         [&](const char*) {})) {
        return;
      }
      if (dapPeer) {
        peer = dap::net::connect(address().c_str(), kPort);
        if (!peer) c.fail("connect to a listening port failed");
      } else {
        raw = rawConnect(kPort);
      }
      f.wait();
      server->stop();
      rw = got;
      if (client && dapPeer) std::swap(rw, peer);
    }
    // Transfer in both directions.
    std::string err;
    std::mutex em;
    auto bad = [&](const std::string& s) {
      std::unique_lock<std::mutex> l(em);
      if (err.empty()) err = s;
    };
    auto writer = [&](dap::ReaderWriter* s, int e) {
      size_t off = 0;
      for (auto n : writes[e]) {
        auto b = stretch(e, off, n);
        if (!s->write(b.data(), b.size())) bad("a write failed on an open connection");
        off += n;
      }
    };
    auto reader = [&](dap::ReaderWriter* s, int e) {
      size_t off = 0;
      std::vector<char> buf(readSize);
      while (off < total[e]) {
        size_t k = s->read(buf.data(), std::min(readSize, total[e] - off));
        if (k == 0) {
          bad("read returned nothing on an open connection");
          return;
        }
        if (stretch(e, off, k) != std::string(buf.data(), k)) {
          bad(pbt::fmt("wrong bytes after %zu", off));
          return;
        }
        off += k;
      }
    };
    {
      std::vector<std::thread> ts;
      ts.emplace_back([&] { writer(rw.get(), 0); });
      ts.emplace_back([&] { reader(rw.get(), 1); });
      if (peer) {
        ts.emplace_back([&] { writer(peer.get(), 1); });
        ts.emplace_back([&] { reader(peer.get(), 0); });
      } else {
        ts.emplace_back([&] { rawSend(raw, stretch(1, 0, total[1])); });
        ts.emplace_back([&] {
          if (rawRecv(raw, total[0]) != stretch(0, 0, total[0])) bad("the peer got wrong bytes");
        });
      }
      for (auto& t : ts) t.join();
    }
    if (!err.empty()) c.fail("%s", err.c_str());
    if (!rw->isOpen() || (peer && !peer->isOpen())) c.fail("an open connection is not open");
    // The end.
    std::string big(8 << 20, 'x');
    char b[16];
    auto peerGone = [&] {
      if (rw->read(b, sizeof(b)) != 0) c.fail("read returned data after the peer has gone");
      // What is written may still be accepted, until the peer has answered.
      bool failed = false;
      for (int i = 0; i < 200 && !failed; i++) failed = !rw->write(big.data(), 100000);
      if (!failed) c.fail("20 MB were written to a peer that has gone");
    };
    switch (ending) {
      case 0:
        break;
      case 1:
        if (peer) peer->close();
        else rawClose(raw, false);
        peerGone();
        raw = -1;
        break;
      case 2:
        rawClose(raw, true);
        peerGone();
        raw = -1;
        break;
      case 3: {
        std::thread t([&] {
          if (rw->read(b, sizeof(b)) != 0) bad("read returned data although none was sent");
        });
        if (c.flip()) std::this_thread::sleep_for(std::chrono::milliseconds(1));
        rw->close();
        t.join();
        break;
      }
      case 4: {
        noFaults();
        std::thread t([&] {
          // Nobody reads it.
          if (rw->write(big.data(), big.size())) bad("a write succeeded that nobody read");
        });
        if (c.flip()) std::this_thread::sleep_for(std::chrono::milliseconds(2));
        rw->close();
        t.join();
        break;
      }
    }
    if (!err.empty()) c.fail("%s", err.c_str());
    rw->close();
    if (rw->isOpen()) c.fail("a closed connection is open");
    if (rw->read(b, sizeof(b)) != 0) c.fail("read returned data after close");
    if (rw->write("x", 1)) c.fail("a write succeeded after close");
    if (raw >= 0) {
      if (ending != 4 && !rawRecv(raw, 10).empty()) c.fail("surplus bytes arrived");
      rawClose(raw, false);
    }
    if (peer) peer->close();
    if (fds() != fds0) c.fail("%zu descriptors are open, %zu were", fds(), fds0);
  }
  if (fds() != fds0) c.fail("%zu descriptors are open, %zu were", fds(), fds0);
  c.label("bytes", total[0] + total[1]);
  if (ending == 2) c.label("reset by the peer");
  if (ending >= 3) c.label("closed while blocked");
  if (total[0] + total[1]) c.nontrivial(h);
}
#elif NET_MODE == 25
void property(pbt::Case& c) {
  size_t fds0 = fds(), threads0 = countDir("/proc/self/task");
  setFaults(c);
  size_t n = 2 + c.draw(7);
  std::string desc = "server:";
  uint64_t h = 1;
  size_t served = 0, starts = 0;
  {
    auto server = dap::net::Server::create();
    bool running = false;
    int occupant = -1, port = 0;
    std::atomic<int> calls{0}, errors{0}, gen{0};
    std::atomic<bool> stale{false};
    int expected = 0;
    for (size_t i = 0; i < n; i++) {
      int op = int(c.weighted({5, 3, 5, 1, 1, 1}));
      if (i == 0) op = 0;
      h = h * 31 + uint64_t(op);
      switch (op) {
        case 0: {
          int kind = int(c.weighted({5, 1, 1}));
          int p = kPort + int(c.draw(2));
          h = h * 31 + uint64_t(kind * 2 + p);
          desc += pbt::fmt(" start(%d,%d)", kind, p - kPort);
          std::string a = kind == 1 ? "no such host" : kind == 2 ? "203.0.113.7" : address();
          int g = ++gen;
          int e0 = errors;
          bool ok = server->start(
              a.c_str(), p,
              [&, g](const std::shared_ptr<dap::ReaderWriter>& rw) {
                if (g != gen) stale = true;
                calls++;
                if (!rw->write("hi", 2)) return;
                char b[4];
                size_t k = 0;
                while (k < 4) {
                  size_t r = rw->read(b + k, 4 - k);
                  if (r == 0) break;
                  k += r;
                }
                if (k == 4) {
                  b[0] ^= 0x55;
                  rw->write(b, 4);
                }
              },
              [&](const char*) { errors++; });
          bool free = kind == 0 && !(occupant >= 0 && p == kPort);
          if (ok && !free) c.fail("a server starts on %s", kind ? "an unusable address" : "an occupied port");
          if (!ok && free) c.fail("a server does not start on a free port");
          if (!ok && errors == e0) c.fail("a failing start reports no error");
          running = ok;
          port = p;
          if (ok) starts++;
          break;
        }
        case 1:
          desc += " stop";
          server->stop();
          gen++;
          running = false;
          break;
        case 2: {
          size_t k = 1 + c.size(20);
          desc += pbt::fmt(" clients%zu", k);
          h = h * 31 + k;
          if (!running) break;
          std::vector<std::thread> ts;
          std::atomic<size_t> good{0};
          for (size_t t = 0; t < k; t++) {
            ts.emplace_back([&, t] {
              auto rw = dap::net::connect(address().c_str(), port, t % 2 ? 20000 : 0);
              if (!rw) return;
              // The server speaks first.
              char b[4] = {char(t), char(i), 3, 4}, r[4];
              size_t got = 0;
              while (got < 2) {
                size_t x = rw->read(r + got, 2 - got);
                if (x == 0) return;
                got += x;
              }
              if (!rw->write(b, 4)) return;
              got = 0;
              while (got < 4) {
                size_t x = rw->read(r + got, 4 - got);
                if (x == 0) return;
                got += x;
              }
              r[0] ^= 0x55;
              if (memcmp(b, r, 4) == 0) good++;
            });
          }
          for (auto& t : ts) t.join();
          if (good != k) c.fail("%zu of %zu clients of a running server were served", good.load(), k);
          expected += int(k);
          served += k;
          if (calls != expected) c.fail("%d callbacks for %d connections", calls.load(), expected);
          break;
        }
        case 3:
          desc += " occupy";
          if (occupant < 0 && !(running && port == kPort)) occupant = rawListen(kPort, 1);
          break;
        case 4:
          desc += " vacate";
          if (occupant >= 0) syscall(SYS_close, occupant);
          occupant = -1;
          break;
        case 5: {
          desc += " stops";
          std::vector<std::thread> ts;
          for (int t = 0; t < 3; t++) ts.emplace_back([&] { server->stop(); });
          for (auto& t : ts) t.join();
          gen++;
          running = false;
          break;
        }
      }
      if (!running) {
        // Nothing listens any more, and the port is free.
        int s = rawListen(kPort + 1, 1);
        if (s < 0) c.fail("the port is in use although no server runs");
        syscall(SYS_close, s);
      }
    }
    server.reset();
    if (stale) c.fail("the callback of a stopped server was called");
    if (occupant >= 0) syscall(SYS_close, occupant);
  }
  c.describe(desc);
  if (fds() != fds0) c.fail("%zu descriptors are open, %zu were", fds(), fds0);
  if (!threadsAre(threads0)) c.fail("threads are left behind");
  c.label("clients served", served);
  c.label("starts", starts);
  if (starts && served) c.nontrivial(h);
}
#elif NET_MODE == 26
void property(pbt::Case& c) {
  size_t fds0 = fds();
  setFaults(c);
  int target = int(c.weighted({3, 3, 2, 1}));
  uint32_t timeout = uint32_t(c.draw(4) == 0 ? 0 : 1 + c.draw(120));
  bool freed = c.flip();
  bool high = c.chance(1, 3);
  if (target == 1 && timeout == 0) freed = true;
  if (target == 0 && timeout) timeout = c.pick(std::vector<uint32_t>{20000, 2147483647u, 2147483648u, 4294967295u});
  c.describe(pbt::fmt("target %d timeout %u%s%s", target, timeout, freed ? " freed" : "",
                      high ? " high descriptor" : ""));
  // Descriptors beyond FD_SETSIZE.
  std::vector<int> hold;
  if (high) {
    while (true) {
      int f = dup(2);
      if (f < 0) break;
      hold.push_back(f);
      if (f >= 1030) break;
    }
  }
  int l = -1;
  std::vector<int> fill;
  std::thread helper;
  if (target <= 1) {
    l = rawListen(kPort, 0);
    if (l < 0) {
      for (auto f : hold) syscall(SYS_close, f);
      return;
    }
  }
  if (target == 1) {
    // Fill the backlog.
    for (int i = 0; i < 3; i++) {
      int s = int(syscall(SYS_socket, AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0));
      auto a = sockAddr(kPort);
      (void)!syscall(SYS_connect, s, &a, sizeof(a));
      fill.push_back(s);
    }
  }
  auto t0 = Clock::now();
  if (target == 1 && freed) {
    // Serve all that comes, after a while. The kernel repeats the attempt a
    // second later, so that the outcome of short timeouts is open.
    helper = std::thread([&] {
      std::this_thread::sleep_for(std::chrono::milliseconds(10));
      while (true) {
        pollfd p = {l, POLLIN, 0};
        if (syscall(SYS_poll, &p, 1, 200) <= 0) break;
        int s = int(syscall(SYS_accept, l, nullptr, nullptr));
        if (s < 0) break;
        fill.push_back(s);
      }
    });
  }
  auto rw = dap::net::connect(target == 3 ? "no such host" : address().c_str(), kPort, timeout);
  auto dt = std::chrono::duration_cast<std::chrono::microseconds>(Clock::now() - t0).count();
  if (helper.joinable()) helper.join();
  noFaults();
  if (target == 0 && !rw) c.fail("no stream to a listening port (timeout %u)", timeout);
  if (target >= 2 && rw) c.fail("a stream although nobody listens");
  if (target == 1 && !rw && timeout && dt < int64_t(timeout) * 1000) {
    c.fail("gave up after %lld us, the timeout is %u ms", (long long)dt, timeout);
  }
  if (target == 1 && !rw && timeout == 0) c.fail("gave up without a timeout");
  if (target == 1 && !freed && rw) c.fail("connected to a full listener");
  if (target == 1 && !freed && dt > int64_t(timeout) * 1000 + 20000000) {
    c.fail("returned after %lld us, the timeout is %u ms", (long long)dt, timeout);
  }
  if (target == 0) {
    int s = int(syscall(SYS_accept, l, nullptr, nullptr));
    if (!rw->isOpen()) c.fail("the new stream is not open");
    std::thread t([&] {
      std::this_thread::sleep_for(std::chrono::milliseconds(3));
      rawSend(s, "hello");
    });
    std::string got(5, 0);
    size_t k = 0;
    while (k < 5) {
      size_t r = rw->read(&got[k], 5 - k);
      if (r == 0) break;
      k += r;
    }
    t.join();
    if (k != 5 || got != "hello") c.fail("the new stream does not block until data arrives");
    std::string big(4 << 20, 'b');
    std::string back;
    std::thread t2([&] {
      std::this_thread::sleep_for(std::chrono::milliseconds(2));
      back = rawRecv(s, big.size());
    });
    bool ok = rw->write(big.data(), big.size());
    if (!ok) rw->close();
    t2.join();
    if (!ok || back != big) c.fail("a large write to the new stream failed");
    syscall(SYS_close, s);
    c.label("connected");
  }
  rw.reset();
  for (auto f : fill) syscall(SYS_close, f);
  if (l >= 0) syscall(SYS_close, l);
  for (auto f : hold) syscall(SYS_close, f);
  if (fds() != fds0) c.fail("%zu descriptors are open, %zu were", fds(), fds0);
  if (target == 1 && !freed) c.label("timed out");
  if (high) c.label("descriptors beyond FD_SETSIZE");
  c.nontrivial(uint64_t(target) * 1000003 + timeout * 8ull + uint64_t(freed) * 2 + uint64_t(high));
}
#endif

}  // namespace

int main(int argc, char** argv) {
  rlimit rl;
  if (getrlimit(RLIMIT_NOFILE, &rl) == 0) {
    rl.rlim_cur = std::min<rlim_t>(rl.rlim_max, 4096);
    setrlimit(RLIMIT_NOFILE, &rl);
  }
  pbt::Options o;
#if NET_MODE == 24
  o.name = "c24_real";
  o.rule =
      "A case is a TCP connection over the kernel's loopback between a stream "
      "under test and a dap or raw peer: generated writes in both directions "
      "(up to 300 kB each), injected partial transfers and EINTR, then a close, "
      "a close or reset by the peer, or a close while blocked in read or write; "
      "bytes, results and descriptor counts are checked. Non-trivial: data is "
      "sent; distinct: plan.";
  o.quickCases = 4000;
#elif NET_MODE == 25
  o.name = "c25_real";
  o.rule =
      "A case is a history of 2-8 starts, stops, concurrent clients, occupied "
      "ports and concurrent stops on a server over the kernel's loopback; "
      "results, callback, descriptor and thread counts are checked. "
      "Non-trivial: a start and a served client; distinct: history.";
  o.quickCases = 15000;
#else
  o.name = "c26_real";
  o.rule =
      "A case is a connect over the kernel's loopback to a listening, "
      "saturated, freed, absent or unresolvable target with a generated timeout, "
      "interrupted waits and descriptors beyond FD_SETSIZE; result, time and "
      "blocking mode are checked. Non-trivial: all; distinct: plan.";
  o.quickCases = 600;
#endif
  o.property = property;
  o.thoroughCases = o.quickCases * 200;
  o.quickCap = 40;
  o.deterministic = false;
  return pbt::run(argc, argv, o);
}
