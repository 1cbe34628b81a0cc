// A simulated TCP loopback network for the code under test: the socket calls of
// the C library are replaced by a model whose faults (partial transfers,
// interrupted calls, small buffers, unresponsive listeners) are drawn by the
// Case, and whose blocking and timeouts use the scheduler's virtual time.
//
// Included by one translation unit of a 'vs' harness. The calls of descriptors
// that do not belong to the simulation go to the kernel.
#pragma once

#include "vsched.h"

#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace sim {

constexpr int kFirst = 500, kLast = 9000;  // descriptors of the simulation

struct Conn {
  struct Dir {
    std::string data;
    size_t taken = 0;
    bool fin = false;
    size_t size() const { return data.size() - taken; }
  } d[2];             // d[i] is sent by side i
  bool gone[2] = {};  // the side has closed its socket
  bool reset[2] = {}; // the side has been told that the connection was reset
  size_t capacity = 65536;
};

struct Sock {
  enum State { New, Listening, Connecting, Connected, Failed };
  State st = New;
  bool nonblock = false, bound = false, reuse = false;
  bool shutR = false, shutW = false;
  bool lingerOff = false;  // close() discards what was not delivered
  int err = 0;
  uint32_t addr = 0;
  uint16_t port = 0;
  int64_t sndTimeo = 0, rcvTimeo = 0;
  // Connected
  std::shared_ptr<Conn> conn;
  int side = 0;
  // Listening
  int backlog = 0;
  bool blackhole = false;  // answers nothing
  std::deque<std::shared_ptr<Conn>> pending;
  // Connecting
  uint32_t toAddr = 0;
  uint16_t toPort = 0;
  bool interrupted = false;  // connect() was
  ~Sock();
};
using SockPtr = std::shared_ptr<Sock>;

struct World {
  pbt::Case* c = nullptr;
  int base = kFirst;
  std::map<int, SockPtr> fds;
  std::set<int> used;          // numbers that were given out
  std::vector<Sock*> socks;    // alive, also without a number
  // Faults
  unsigned partial = 0, eintr = 0;  // chance out of 16
  size_t capacity = 65536;
  bool immediate = false;  // non-blocking connects may complete right away
  // The errors of the next accept() calls.
  std::vector<int> acceptErrors;
  std::function<void(uint16_t port, int err)> onAcceptError;
  // Closed connections whose local port is still in use for a while.
  struct TimeWait {
    uint32_t addr;
    uint16_t port;
    bool interrupted = false;  // a connect()
  bool reuse;
    int64_t until;
  };
  std::vector<TimeWait> timeWait;
  // Counters
  size_t partials = 0, eintrs = 0, addrinfos = 0, accepted = 0, connects = 0;
  size_t resets = 0, fullWaits = 0;
  bool failed = false;
};
inline World* w = nullptr;  // set while a case runs

[[noreturn]] inline void die(const std::string& s) { pbt::failNow(s); }

inline bool mine(int fd) { return w && vs::active() && fd >= kFirst && fd < kLast; }

inline SockPtr get(int fd, const char* call) {
  auto it = w->fds.find(fd);
  if (it != w->fds.end()) return it->second;
  if (w->used.count(fd)) {
    die(std::string(call) + "() of descriptor " + std::to_string(fd) +
        ", which has already been closed");
  }
  return nullptr;
}

inline int newFd(const SockPtr& s) {
  int n = w->base;
  while (w->fds.count(n)) n++;
  w->fds[n] = s;
  w->used.insert(n);
  return n;
}

inline bool fault(unsigned chance) { return chance && w->c->draw(16) >= 16 - chance; }

inline Sock* listener(uint32_t addr, uint16_t port) {
  for (auto s : w->socks) {
    if (s->st == Sock::Listening && !s->shutR && s->port == port &&
        (s->addr == addr || s->addr == 0)) {
      return s;
    }
  }
  return nullptr;
}

// Makes what progress a connection attempt can make.
inline void attempt(Sock* s) {
  if (s->st != Sock::Connecting) return;
  auto l = listener(s->toAddr, s->toPort);
  if (!l) {
    s->st = Sock::Failed;
    s->err = ECONNREFUSED;
    return;
  }
  if (l->blackhole || int(l->pending.size()) > l->backlog) {
    w->fullWaits++;
    return;
  }
  auto conn = std::make_shared<Conn>();
  conn->capacity = w->capacity;
  s->conn = conn;
  s->side = 0;
  s->st = Sock::Connected;
  l->pending.push_back(conn);
  w->connects++;
}
inline void attempts() {
  for (auto s : w->socks) attempt(s);
}

inline void resetPeer(const std::shared_ptr<Conn>& c, int side) {
  if (!c->gone[1 - side] && !c->reset[1 - side]) {
    c->reset[1 - side] = true;
    w->resets++;
    for (auto s : w->socks) {
      if (s->conn == c && s->side == 1 - side) {
        s->err = c->d[side].fin ? EPIPE : ECONNRESET;
      }
    }
  }
}

inline Sock::~Sock() {
  if (!w) return;
  for (size_t i = 0; i < w->socks.size(); i++) {
    if (w->socks[i] == this) {
      w->socks.erase(w->socks.begin() + long(i));
      break;
    }
  }
  if (conn) {
    bool unread = conn->d[1 - side].size() > 0;
    conn->gone[side] = true;
    conn->d[side].fin = true;
    bool discards = lingerOff && !unread;
    if (lingerOff) {
      conn->d[side].data.resize(conn->d[side].taken);
      unread = true;
    }
    if (bound && !conn->gone[1 - side] && !unread && !conn->reset[side]) {
      w->timeWait.push_back({addr, port, reuse, vs::now() + int64_t(60) * 1000000000});
    }
    size_t resets = w->resets;
    if (unread) resetPeer(conn, side);
    // A reset that only the option is the reason of excuses no loss.
    if (discards) w->resets = resets;
  }
  for (auto& p : pending) {
    p->gone[1] = true;
    p->d[1].fin = true;
    resetPeer(p, 1);
  }
  if (st == Listening) {
    st = Failed;
    attempts();
  }
}

inline SockPtr newSock() {
  auto s = std::make_shared<Sock>();
  w->socks.push_back(s.get());
  return s;
}

inline int fail(int e) {
  errno = e;
  return -1;
}

inline void sigpipe(int flags) {
  if (flags & MSG_NOSIGNAL) return;
  struct sigaction sa;
  sigset_t mask;
  if (sigaction(SIGPIPE, nullptr, &sa) == 0 && sa.sa_handler != SIG_DFL) return;
  if (pthread_sigmask(SIG_BLOCK, nullptr, &mask) == 0 && sigismember(&mask, SIGPIPE) == 1) return;
  die("the process is killed by SIGPIPE");
}

inline int64_t deadline(int64_t timeo) { return timeo > 0 ? vs::now() + timeo : -1; }

inline ssize_t doSend(int fd, const void* buf, size_t n, int flags, const char* call) {
  vs::yield();
  ssize_t r = -1;
  {
    vs::Quiet q;
    auto s = get(fd, call);
    if (!s) return fail(EBADF);
    if (fault(w->eintr)) {
      w->eintrs++;
      return fail(EINTR);
    }
    while (true) {
      if (s->err) {
        int e = s->err;
        s->err = 0;
        s->shutW = true;
        if (e == EPIPE) sigpipe(flags);
        return fail(e);
      }
      if (!s->conn || s->st != Sock::Connected) {
        sigpipe(flags);
        return fail(EPIPE);
      }
      auto& c = *s->conn;
      auto& d = c.d[s->side];
      if (s->shutW || d.fin || c.reset[s->side]) {
        sigpipe(flags);
        return fail(EPIPE);
      }
      if (n == 0) return 0;
      if (c.gone[1 - s->side]) {
        // Accepted, answered by a reset.
        resetPeer(s->conn, 1 - s->side);
        return ssize_t(n);
      }
      if (d.size() < c.capacity) {
        size_t k = std::min(n, c.capacity - d.size());
        if (k > 1 && fault(w->partial)) k = 1 + w->c->draw(k - 1);
        // A blocking send() returns before all is taken only if interrupted.
        if (k < n && !s->nonblock && !(flags & MSG_DONTWAIT) && w->partial == 0) {
          // Takes the rest in the loop below.
          d.data.append(static_cast<const char*>(buf), k);
          size_t done = k;
          while (done < n) {
            auto ready = [&] {
              return d.size() < c.capacity || s->err || s->shutW || d.fin ||
                     c.reset[s->side] || c.gone[1 - s->side];
            };
            vs::waitUntil("send() has room", ready);
            if (d.size() >= c.capacity || s->err || s->shutW || d.fin || c.reset[s->side] ||
                c.gone[1 - s->side]) {
              return ssize_t(done);
            }
            k = std::min(n - done, c.capacity - d.size());
            d.data.append(static_cast<const char*>(buf) + done, k);
            done += k;
          }
          return ssize_t(done);
        }
        if (k < n) w->partials++;
        d.data.append(static_cast<const char*>(buf), k);
        r = ssize_t(k);
        break;
      }
      if (s->nonblock || (flags & MSG_DONTWAIT)) return fail(EAGAIN);
      bool ok = vs::waitUntil("send() has room", [&] {
        return d.size() < c.capacity || s->err || s->shutW || d.fin || c.reset[s->side] ||
               c.gone[1 - s->side];
      }, deadline(s->sndTimeo));
      if (!ok) return fail(EAGAIN);
    }
  }
  vs::yield();
  return r;
}

inline ssize_t doRecv(int fd, void* buf, size_t n, int flags, const char* call) {
  vs::yield();
  ssize_t r = -1;
  {
    vs::Quiet q;
    auto s = get(fd, call);
    if (!s) return fail(EBADF);
    if (fault(w->eintr)) {
      w->eintrs++;
      return fail(EINTR);
    }
    if (!s->conn || s->st != Sock::Connected) return fail(ENOTCONN);
    auto& c = *s->conn;
    auto& d = c.d[1 - s->side];
    if (n == 0) return 0;
    auto ready = [&] {
      return d.size() > 0 || d.fin || s->shutR || c.reset[s->side] || s->err;
    };
    if (!ready()) {
      if (s->nonblock || (flags & MSG_DONTWAIT)) return fail(EAGAIN);
      if (!vs::waitUntil("recv() has data", ready, deadline(s->rcvTimeo))) return fail(EAGAIN);
    }
    if (d.size() > 0) {
      size_t k = std::min(n, d.size());
      if (k > 1 && !(flags & MSG_WAITALL) && fault(w->partial)) k = 1 + w->c->draw(k - 1);
      memcpy(buf, d.data.data() + d.taken, k);
      if (!(flags & MSG_PEEK)) {
        d.taken += k;
        if (d.taken > 65536) {
          d.data.erase(0, d.taken);
          d.taken = 0;
        }
      }
      r = ssize_t(k);
    } else if (s->err) {
      int e = s->err == EPIPE ? ECONNRESET : s->err;
      s->err = 0;
      return fail(e);
    } else {
      r = 0;
    }
  }
  vs::yield();
  return r;
}

inline int doAccept(int fd, sockaddr* addr, socklen_t* len, int flags, const char* call) {
  vs::yield();
  int r = -1;
  {
    vs::Quiet q;
    auto s = get(fd, call);
    if (!s) return fail(EBADF);
    if (s->st != Sock::Listening) return fail(EINVAL);
    if (fault(w->eintr)) {
      w->eintrs++;
      return fail(EINTR);
    }
    if (s->pending.empty() && !s->shutR) {
      if (s->nonblock) return fail(EAGAIN);
      if (!vs::waitUntil("accept() has a connection",
                         [&] { return !s->pending.empty() || s->shutR; },
                         deadline(s->rcvTimeo))) {
        return fail(EAGAIN);
      }
    }
    if (s->shutR) return fail(EINVAL);
    if (!w->acceptErrors.empty()) {
      int err = w->acceptErrors.back();
      w->acceptErrors.pop_back();
      if (err == ECONNABORTED) {  // of the connection that was waiting
        auto p = s->pending.front();
        p->gone[1] = true;
        p->d[1].fin = true;
        resetPeer(p, 1);
        s->pending.pop_front();
        attempts();
      }
      if (w->onAcceptError) w->onAcceptError(s->port, err);
      return fail(err);
    }
    auto n = newSock();
    n->st = Sock::Connected;
    n->conn = s->pending.front();
    n->side = 1;
    n->addr = s->addr;
    n->port = s->port;
    n->bound = true;
    n->reuse = s->reuse;
    n->lingerOff = s->lingerOff;
    n->nonblock = (flags & SOCK_NONBLOCK) != 0;
    if (n->conn->reset[1]) n->err = ECONNRESET;
    s->pending.pop_front();
    attempts();
    if (addr && len) {
      sockaddr_in in = {};
      in.sin_family = AF_INET;
      in.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
      in.sin_port = htons(40000);
      memcpy(addr, &in, std::min<size_t>(*len, sizeof(in)));
      *len = sizeof(in);
    }
    w->accepted++;
    r = newFd(n);
  }
  vs::yield();
  return r;
}

inline int events(const SockPtr& s) {
  switch (s->st) {
    case Sock::New: return POLLOUT | POLLHUP;
    case Sock::Listening:
      return (s->shutR ? POLLIN | POLLHUP : 0) | (s->pending.empty() ? 0 : POLLIN);
    case Sock::Connecting: return s->shutR ? POLLHUP | POLLIN | POLLOUT : 0;
    case Sock::Failed: return POLLIN | POLLOUT | POLLHUP | (s->err ? POLLERR : 0);
    case Sock::Connected: break;
  }
  auto& c = *s->conn;
  auto &in = c.d[1 - s->side], &out = c.d[s->side];
  int e = 0;
  if (in.size() > 0 || in.fin || s->shutR || c.reset[s->side]) e |= POLLIN;
  if (in.fin || s->shutR) e |= POLLRDHUP;
  if (out.size() < c.capacity || out.fin || s->shutW || c.reset[s->side]) e |= POLLOUT;
  if ((in.fin && out.fin) || c.reset[s->side]) e |= POLLHUP;
  if (s->err) e |= POLLERR;
  return e;
}

inline int doPoll(pollfd* p, nfds_t n, int64_t timeoutNs) {
  vs::yield();
  int r = 0;
  {
    vs::Quiet q;
    std::vector<SockPtr> s(n);
    for (nfds_t i = 0; i < n; i++) {
      p[i].revents = 0;
      if (p[i].fd >= 0 && mine(p[i].fd)) s[i] = get(p[i].fd, "poll");
    }
    auto eval = [&] {
      int k = 0;
      for (nfds_t i = 0; i < n; i++) {
        if (!s[i]) continue;
        int e = events(s[i]) & (p[i].events | POLLERR | POLLHUP | POLLNVAL);
        p[i].revents = short(e);
        if (e) k++;
      }
      return k;
    };
    if (fault(w->eintr)) {
      // Interrupted right away, or after a part of the time.
      w->eintrs++;
      int64_t part = timeoutNs > 0 ? timeoutNs / 8 * int64_t(w->c->draw(8)) : 0;
      if (part == 0 ||
          !vs::waitUntil("poll()", [&] { return eval() > 0; }, vs::now() + part)) {
        return fail(EINTR);
      }
    }
    if (timeoutNs != 0 && eval() == 0) {
      int64_t dl = timeoutNs < 0 ? -1 : vs::now() + timeoutNs;
      vs::waitUntil("poll()", [&] { return eval() > 0; }, dl);
    }
    r = eval();
  }
  vs::yield();
  return r;
}

inline int doSelect(int nfds, fd_set* rd, fd_set* wr, fd_set* ex, int64_t timeoutNs) {
  if (nfds > FD_SETSIZE) {
    die("select() of a descriptor beyond FD_SETSIZE");
  }
  std::vector<pollfd> p;
  for (int i = 0; i < nfds && i < FD_SETSIZE; i++) {
    short e = 0;
    if (rd && FD_ISSET(i, rd)) e |= POLLIN;
    if (wr && FD_ISSET(i, wr)) e |= POLLOUT;
    if (ex && FD_ISSET(i, ex)) e |= POLLPRI;
    if (e) p.push_back({i, e, 0});
  }
  int r = doPoll(p.data(), p.size(), timeoutNs);
  if (r < 0) return r;
  int k = 0;
  for (auto& x : p) {
    if (rd && FD_ISSET(x.fd, rd)) {
      if (x.revents & (POLLIN | POLLHUP | POLLERR)) k++;
      else FD_CLR(x.fd, rd);
    }
    if (wr && FD_ISSET(x.fd, wr)) {
      if (x.revents & (POLLOUT | POLLERR)) k++;
      else FD_CLR(x.fd, wr);
    }
    if (ex && FD_ISSET(x.fd, ex)) FD_CLR(x.fd, ex);
  }
  return k;
}

// Interface of the harness --------------------------------------------------

// The raw other end of a connection.
struct Raw {
  SockPtr s;
  bool valid() const { return s != nullptr; }
  // Takes up to n bytes that have arrived.
  std::string take(size_t n) {
    vs::Quiet q;
    auto& d = s->conn->d[1 - s->side];
    std::string r = d.data.substr(d.taken, n);
    d.taken += r.size();
    return r;
  }
  size_t available() const { return s->conn->d[1 - s->side].size(); }
  bool ended() const { return s->conn->d[1 - s->side].fin; }
  bool wasReset() const { return s->conn->reset[s->side]; }
  bool room() const {
    return s->conn->d[s->side].size() < s->conn->capacity || s->conn->gone[1 - s->side];
  }
  // Sends as much as there is room for.
  size_t put(const std::string& b) {
    vs::Quiet q;
    if (s->conn->gone[1 - s->side]) return b.size();
    auto& d = s->conn->d[s->side];
    size_t k = std::min(b.size(), s->conn->capacity - std::min(s->conn->capacity, d.size()));
    d.data.append(b, 0, k);
    return k;
  }
  void finish() {  // half close
    vs::Quiet q;
    s->conn->d[s->side].fin = true;
  }
  void close() {
    vs::Quiet q;
    s.reset();
  }
  void reset() {
    vs::Quiet q;
    resetPeer(s->conn, s->side);
    s->conn->d[s->side].fin = true;
    s.reset();
  }
};

inline SockPtr rawListen(uint16_t port, int backlog) {
  vs::Quiet q;
  auto s = newSock();
  s->bound = true;
  s->addr = INADDR_LOOPBACK;
  s->port = port;
  s->backlog = backlog;
  s->st = Sock::Listening;
  return s;
}
inline bool rawReady(const SockPtr& l) { return !l->pending.empty(); }
inline Raw rawAccept(const SockPtr& l) {
  vs::Quiet q;
  Raw r;
  if (l->pending.empty()) return r;
  r.s = newSock();
  r.s->st = Sock::Connected;
  r.s->conn = l->pending.front();
  r.s->side = 1;
  l->pending.pop_front();
  attempts();
  return r;
}
// Starts to connect: r.s->st tells how far it is.
inline Raw rawConnect(uint16_t port) {
  vs::Quiet q;
  Raw r;
  r.s = newSock();
  r.s->toAddr = INADDR_LOOPBACK;
  r.s->toPort = port;
  r.s->st = Sock::Connecting;
  attempt(r.s.get());
  return r;
}

struct Scope {
  World world;
  explicit Scope(pbt::Case& c) {
    world.c = &c;
    w = &world;
  }
  ~Scope() {
    world.fds.clear();
    w = nullptr;
  }
};

}  // namespace sim

////////////////////////////////////////////////////////////////////////////////
// The calls
////////////////////////////////////////////////////////////////////////////////
#define SIM_MINE(FD) (sim::mine(FD))

extern "C" {

int socket(int domain, int type, int protocol) {
  if (!sim::w || !vs::active()) return int(syscall(SYS_socket, domain, type, protocol));
  vs::yield();
  vs::Quiet q;
  if (domain != AF_INET || (type & 0xff) != SOCK_STREAM) return sim::fail(EAFNOSUPPORT);
  auto s = sim::newSock();
  s->nonblock = (type & SOCK_NONBLOCK) != 0;
  return sim::newFd(s);
}

int bind(int fd, const sockaddr* addr, socklen_t len) {
  if (!SIM_MINE(fd)) {
    if (fd < 0) return sim::fail(EBADF);
    return int(syscall(SYS_bind, fd, addr, len));
  }
  vs::yield();
  vs::Quiet q;
  auto s = sim::get(fd, "bind");
  if (!s) return sim::fail(EBADF);
  auto in = reinterpret_cast<const sockaddr_in*>(addr);
  uint32_t a = ntohl(in->sin_addr.s_addr);
  uint16_t p = ntohs(in->sin_port);
  if (a != 0 && (a >> 24) != 127) return sim::fail(EADDRNOTAVAIL);
  if (p == 0) p = 33333;
  for (auto o : sim::w->socks) {
    if (o == s.get() || !o->bound || o->port != p) continue;
    if (o->addr != a && o->addr != 0 && a != 0) continue;
    bool listening = o->st == sim::Sock::Listening;
    if (listening || !o->reuse || !s->reuse) return sim::fail(EADDRINUSE);
  }
  for (auto& t : sim::w->timeWait) {
    if (t.port != p || t.until <= vs::now()) continue;
    if (t.addr != a && t.addr != 0 && a != 0) continue;
    if (!t.reuse || !s->reuse) return sim::fail(EADDRINUSE);
  }
  s->bound = true;
  s->addr = a;
  s->port = p;
  return 0;
}

int listen(int fd, int backlog) {
  if (!SIM_MINE(fd)) return fd < 0 ? sim::fail(EBADF) : int(syscall(SYS_listen, fd, backlog));
  vs::yield();
  vs::Quiet q;
  auto s = sim::get(fd, "listen");
  if (!s) return sim::fail(EBADF);
  if (s->conn) return sim::fail(EINVAL);
  for (auto o : sim::w->socks) {
    if (o != s.get() && o->st == sim::Sock::Listening && o->port == s->port &&
        (o->addr == s->addr || o->addr == 0 || s->addr == 0)) {
      return sim::fail(EADDRINUSE);
    }
  }
  s->st = sim::Sock::Listening;
  s->backlog = backlog < 0 ? 4096 : backlog;
  sim::attempts();
  return 0;
}

int accept(int fd, sockaddr* addr, socklen_t* len) {
  if (!SIM_MINE(fd)) return fd < 0 ? sim::fail(EBADF) : int(syscall(SYS_accept, fd, addr, len));
  return sim::doAccept(fd, addr, len, 0, "accept");
}
int accept4(int fd, sockaddr* addr, socklen_t* len, int flags) {
  if (!SIM_MINE(fd)) return int(syscall(SYS_accept4, fd, addr, len, flags));
  return sim::doAccept(fd, addr, len, flags, "accept4");
}

int connect(int fd, const sockaddr* addr, socklen_t len) {
  if (!SIM_MINE(fd)) return fd < 0 ? sim::fail(EBADF) : int(syscall(SYS_connect, fd, addr, len));
  vs::yield();
  int r = 0;
  {
    vs::Quiet q;
    auto s = sim::get(fd, "connect");
    if (!s) return sim::fail(EBADF);
    bool again = s->interrupted;  // goes on with what an interrupted call began
    if (!again) {
      if (s->st == sim::Sock::Connected) return sim::fail(EISCONN);
      if (s->st == sim::Sock::Connecting) return sim::fail(EALREADY);
      if (s->st == sim::Sock::Listening) return sim::fail(EISCONN);
    } else if (s->nonblock && s->st == sim::Sock::Connecting) {
      return sim::fail(EALREADY);
    }
    auto in = reinterpret_cast<const sockaddr_in*>(addr);
    s->toAddr = ntohl(in->sin_addr.s_addr);
    if (s->toAddr == 0) s->toAddr = INADDR_LOOPBACK;
    s->toPort = ntohs(in->sin_port);
    if (!again) {
      s->err = 0;
      s->st = sim::Sock::Connecting;
    }
    if ((s->toAddr >> 24) != 127) {
      s->st = sim::Sock::Failed;
      return sim::fail(ENETUNREACH);
    }
    sim::attempt(s.get());
    bool now = !s->nonblock || (sim::w->immediate && sim::w->c->flip());
    if (s->nonblock && (!now || s->st == sim::Sock::Connecting)) return sim::fail(EINPROGRESS);
    if (!s->nonblock && sim::fault(sim::w->eintr)) {
      // The attempt continues.
      sim::w->eintrs++;
      s->interrupted = true;
      return sim::fail(EINTR);
    }
    s->interrupted = false;
    if (s->st == sim::Sock::Connecting) {
      vs::waitUntil("connect()", [&] { return s->st != sim::Sock::Connecting || s->shutR; },
                    sim::deadline(s->sndTimeo));
      if (s->st == sim::Sock::Connecting) return sim::fail(s->shutR ? ECONNRESET : EINPROGRESS);
    }
    if (s->st == sim::Sock::Failed) {
      int e = s->err;
      s->err = 0;
      return sim::fail(e ? e : ECONNREFUSED);
    }
  }
  vs::yield();
  return r;
}

ssize_t send(int fd, const void* buf, size_t n, int flags) {
  if (!SIM_MINE(fd)) return syscall(SYS_sendto, fd, buf, n, flags, nullptr, 0);
  return sim::doSend(fd, buf, n, flags, "send");
}
ssize_t sendto(int fd, const void* buf, size_t n, int flags, const sockaddr* a, socklen_t l) {
  if (!SIM_MINE(fd)) return syscall(SYS_sendto, fd, buf, n, flags, a, l);
  return sim::doSend(fd, buf, n, flags, "sendto");
}
ssize_t sendmsg(int fd, const msghdr* m, int flags) {
  if (!SIM_MINE(fd)) return syscall(SYS_sendmsg, fd, m, flags);
  std::string b;
  for (size_t i = 0; i < m->msg_iovlen; i++) {
    b.append(static_cast<char*>(m->msg_iov[i].iov_base), m->msg_iov[i].iov_len);
  }
  return sim::doSend(fd, b.data(), b.size(), flags, "sendmsg");
}
ssize_t write(int fd, const void* buf, size_t n) {
  if (!SIM_MINE(fd)) return syscall(SYS_write, fd, buf, n);
  return sim::doSend(fd, buf, n, 0, "write");
}
ssize_t writev(int fd, const iovec* v, int n) {
  if (!SIM_MINE(fd)) return syscall(SYS_writev, fd, v, n);
  std::string b;
  for (int i = 0; i < n; i++) b.append(static_cast<char*>(v[i].iov_base), v[i].iov_len);
  return sim::doSend(fd, b.data(), b.size(), 0, "writev");
}
ssize_t recv(int fd, void* buf, size_t n, int flags) {
  if (!SIM_MINE(fd)) return syscall(SYS_recvfrom, fd, buf, n, flags, nullptr, nullptr);
  return sim::doRecv(fd, buf, n, flags, "recv");
}
ssize_t recvfrom(int fd, void* buf, size_t n, int flags, sockaddr* a, socklen_t* l) {
  if (!SIM_MINE(fd)) return syscall(SYS_recvfrom, fd, buf, n, flags, a, l);
  return sim::doRecv(fd, buf, n, flags, "recvfrom");
}
ssize_t recvmsg(int fd, msghdr* m, int flags) {
  if (!SIM_MINE(fd)) return syscall(SYS_recvmsg, fd, m, flags);
  if (m->msg_iovlen < 1) return 0;
  return sim::doRecv(fd, m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, flags, "recvmsg");
}
ssize_t read(int fd, void* buf, size_t n) {
  if (!SIM_MINE(fd)) return syscall(SYS_read, fd, buf, n);
  return sim::doRecv(fd, buf, n, 0, "read");
}

int shutdown(int fd, int how) {
  if (!SIM_MINE(fd)) return fd < 0 ? sim::fail(EBADF) : int(syscall(SYS_shutdown, fd, how));
  vs::yield();
  int r = 0;
  {
    vs::Quiet q;
    auto s = sim::get(fd, "shutdown");
    if (!s) return sim::fail(EBADF);
    if (s->st == sim::Sock::New || s->st == sim::Sock::Failed) return sim::fail(ENOTCONN);
    if (how == SHUT_RD || how == SHUT_RDWR) s->shutR = true;
    if (how == SHUT_WR || how == SHUT_RDWR) {
      s->shutW = true;
      if (s->conn) s->conn->d[s->side].fin = true;
    }
    if (s->st == sim::Sock::Listening && s->shutR) {
      for (auto& p : s->pending) {
        p->gone[1] = true;
        p->d[1].fin = true;
        sim::resetPeer(p, 1);
      }
      s->pending.clear();
      sim::attempts();
    }
    if (s->conn && s->conn->reset[s->side]) r = sim::fail(ENOTCONN);
  }
  vs::yield();
  return r;
}

int close(int fd) {
  if (!SIM_MINE(fd)) return int(syscall(SYS_close, fd));
  vs::yield();
  {
    vs::Quiet q;
    auto s = sim::get(fd, "close");
    if (!s) return sim::fail(EBADF);
    sim::w->fds.erase(fd);
  }
  vs::yield();
  return 0;
}

int getsockopt(int fd, int level, int opt, void* val, socklen_t* len) {
  if (!SIM_MINE(fd)) return int(syscall(SYS_getsockopt, fd, level, opt, val, len));
  vs::yield();
  vs::Quiet q;
  auto s = sim::get(fd, "getsockopt");
  if (!s) return sim::fail(EBADF);
  int v = 0;
  if (level == SOL_SOCKET) {
    switch (opt) {
      case SO_ERROR:
        v = s->err;
        s->err = 0;
        break;
      case SO_TYPE: v = SOCK_STREAM; break;
      case SO_ACCEPTCONN: v = s->st == sim::Sock::Listening; break;
      case SO_REUSEADDR: v = s->reuse; break;
      case SO_SNDBUF:
      case SO_RCVBUF: v = int(sim::w->capacity); break;
      default: break;
    }
  }
  socklen_t k = std::min<socklen_t>(*len, sizeof(v));
  memset(val, 0, *len);
  memcpy(val, &v, k);
  *len = k;
  return 0;
}

int setsockopt(int fd, int level, int opt, const void* val, socklen_t len) {
  if (!SIM_MINE(fd)) return int(syscall(SYS_setsockopt, fd, level, opt, val, len));
  vs::yield();
  vs::Quiet q;
  auto s = sim::get(fd, "setsockopt");
  if (!s) return sim::fail(EBADF);
  if (level == SOL_SOCKET) {
    if (opt == SO_REUSEADDR && len >= 4) s->reuse = *static_cast<const int*>(val) != 0;
    if (opt == SO_LINGER && len >= sizeof(linger)) {
      auto l = static_cast<const linger*>(val);
      s->lingerOff = l->l_onoff && l->l_linger == 0;
    }
    if ((opt == SO_SNDTIMEO || opt == SO_RCVTIMEO) && len >= sizeof(timeval)) {
      auto t = static_cast<const timeval*>(val);
      int64_t ns = int64_t(t->tv_sec) * 1000000000 + int64_t(t->tv_usec) * 1000;
      (opt == SO_SNDTIMEO ? s->sndTimeo : s->rcvTimeo) = ns;
    }
  }
  return 0;
}

int fcntl(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long arg = va_arg(ap, long);
  va_end(ap);
  if (!SIM_MINE(fd)) return int(syscall(SYS_fcntl, fd, cmd, arg));
  vs::yield();
  vs::Quiet q;
  auto s = sim::get(fd, "fcntl");
  if (!s) return sim::fail(EBADF);
  switch (cmd) {
    case F_GETFL: return O_RDWR | (s->nonblock ? O_NONBLOCK : 0);
    case F_SETFL: s->nonblock = (int(arg) & O_NONBLOCK) != 0; return 0;
    case F_GETFD: return 0;
    case F_SETFD: return 0;
    default: return sim::fail(EINVAL);
  }
}
int fcntl64(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long arg = va_arg(ap, long);
  va_end(ap);
  return fcntl(fd, cmd, arg);
}
int ioctl(int fd, unsigned long req, ...) {
  va_list ap;
  va_start(ap, req);
  void* arg = va_arg(ap, void*);
  va_end(ap);
  if (!SIM_MINE(fd)) return int(syscall(SYS_ioctl, fd, req, arg));
  vs::yield();
  vs::Quiet q;
  auto s = sim::get(fd, "ioctl");
  if (!s) return sim::fail(EBADF);
  if (req == FIONBIO) {
    s->nonblock = *static_cast<int*>(arg) != 0;
    return 0;
  }
  return sim::fail(ENOTTY);
}

int poll(pollfd* p, nfds_t n, int timeout) {
  if (!sim::w || !vs::active()) return int(syscall(SYS_poll, p, n, timeout));
  return sim::doPoll(p, n, timeout < 0 ? -1 : int64_t(timeout) * 1000000);
}
int ppoll(pollfd* p, nfds_t n, const timespec* t, const sigset_t* m) {
  if (!sim::w || !vs::active()) return int(syscall(SYS_ppoll, p, n, t, m, 8));
  return sim::doPoll(p, n, t ? int64_t(t->tv_sec) * 1000000000 + t->tv_nsec : -1);
}
int select(int n, fd_set* r, fd_set* wr, fd_set* e, timeval* t) {
  if (!sim::w || !vs::active()) return int(syscall(SYS_select, n, r, wr, e, t));
  if (t && (t->tv_sec < 0 || t->tv_usec < 0)) return sim::fail(EINVAL);
  return sim::doSelect(n, r, wr, e,
                       t ? int64_t(t->tv_sec) * 1000000000 + int64_t(t->tv_usec) * 1000 : -1);
}
int pselect(int n, fd_set* r, fd_set* wr, fd_set* e, const timespec* t, const sigset_t* m) {
  if (!sim::w || !vs::active()) return -1;
  return sim::doSelect(n, r, wr, e, t ? int64_t(t->tv_sec) * 1000000000 + t->tv_nsec : -1);
}

int getaddrinfo(const char* node, const char* service, const addrinfo* hints, addrinfo** out) {
  using Fn = int (*)(const char*, const char*, const addrinfo*, addrinfo**);
  static Fn real = reinterpret_cast<Fn>(dlsym(RTLD_NEXT, "getaddrinfo"));
  if (!sim::w || !vs::active()) return real(node, service, hints, out);
  vs::yield();
  vs::Quiet q;
  uint32_t a = INADDR_LOOPBACK;
  in_addr ia;
  if (!node) {
    a = hints && (hints->ai_flags & AI_PASSIVE) ? 0 : INADDR_LOOPBACK;
  } else if (inet_pton(AF_INET, node, &ia) == 1) {
    a = ntohl(ia.s_addr);
  } else if (strcmp(node, "localhost") != 0) {
    return EAI_NONAME;
  }
  char* end = nullptr;
  // As glibc does: a port number beyond 16 bits is truncated.
  long port = service ? strtol(service, &end, 10) : 0;
  if (service && (*end || port < 0)) return EAI_SERVICE;
  auto ai = static_cast<addrinfo*>(calloc(1, sizeof(addrinfo) + sizeof(sockaddr_in)));
  auto in = reinterpret_cast<sockaddr_in*>(ai + 1);
  in->sin_family = AF_INET;
  in->sin_addr.s_addr = htonl(a);
  in->sin_port = htons(uint16_t(port));
  ai->ai_family = AF_INET;
  ai->ai_socktype = SOCK_STREAM;
  ai->ai_protocol = IPPROTO_TCP;
  ai->ai_addrlen = sizeof(sockaddr_in);
  ai->ai_addr = reinterpret_cast<sockaddr*>(in);
  *out = ai;
  sim::w->addrinfos++;
  return 0;
}
void freeaddrinfo(addrinfo* ai) {
  using Fn = void (*)(addrinfo*);
  static Fn real = reinterpret_cast<Fn>(dlsym(RTLD_NEXT, "freeaddrinfo"));
  if (!sim::w || !vs::active()) {
    real(ai);
    return;
  }
  vs::Quiet q;
  sim::w->addrinfos--;
  free(ai);
}

}  // extern "C"
