#include "vsched.h"

#include <algorithm>
#include <atomic>
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <map>
#include <new>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <vector>

extern "C" char __libc_single_threaded;

namespace {

////////////////////////////////////////////////////////////////////////////////
// Memory
////////////////////////////////////////////////////////////////////////////////

template <typename T>
struct MA {  // allocator of the runtime's own containers
  using value_type = T;
  MA() = default;
  template <typename U>
  MA(const MA<U>&) {}
  T* allocate(size_t n) { return static_cast<T*>(malloc(n * sizeof(T))); }
  void deallocate(T* p, size_t) { free(p); }
  bool operator==(const MA&) const { return true; }
  bool operator!=(const MA&) const { return false; }
};
template <typename T>
using Vec = std::vector<T, MA<T>>;

constexpr int kMaxThreads = 48;
using Clock = uint32_t;

struct VC {
  Clock c[kMaxThreads];
  void clear() { memset(c, 0, sizeof(c)); }
  void join(const VC& o) {
    for (int i = 0; i < kMaxThreads; i++) c[i] = std::max(c[i], o.c[i]);
  }
};

enum class St {
  Ready,
  Mutex,
  Cond,
  Join,
  Sleep,
  Pred,
  Idle,
  Fd,
  Guard,
  RWRead,
  RWWrite,
  Done,
};

const char* stName(St s) {
  switch (s) {
    case St::Ready: return "ready";
    case St::Mutex: return "waiting for a mutex";
    case St::Cond: return "waiting for a condition variable";
    case St::Join: return "joining a thread";
    case St::Sleep: return "sleeping";
    case St::Pred: return "waiting until";
    case St::Idle: return "waiting for idle";
    case St::Fd: return "waiting for a descriptor";
    case St::Guard: return "waiting for a static initializer";
    case St::RWRead: return "waiting for a read lock";
    case St::RWWrite: return "waiting for a write lock";
    case St::Done: return "done";
  }
  return "?";
}

struct MutexState;

struct Thread {
  int id = 0;
  St state = St::Ready;
  std::atomic<uint32_t> go{0};
  int quiet = 0;
  int64_t deadline = -1;   // virtual time
  bool timedOut = false;
  bool signalled = false;
  const void* addr = nullptr;
  const char* what = nullptr;
  const std::function<bool()>* pred = nullptr;
  bool idleTimers = true;
  int fd = -1, events = 0, revents = 0;
  Thread* joinee = nullptr;
  bool detached = false;
  bool joined = false;
  uint64_t prio = 0;
  pthread_t handle{};
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
  VC vc;
  const void* lastPc = nullptr;
};

struct MutexState {
  Thread* owner = nullptr;
  int depth = 0;
  int readers = 0;  // rwlocks
  int readerOf[kMaxThreads] = {};
  VC vc;
};

struct SyncVar {
  VC vc;
};

// Shadow of 8 bytes.
struct Access {
  uint32_t clock;
  uint8_t tid;
  uint8_t mask;
  uint8_t write;  // 0 read, 1 write
  uint8_t used;
};
constexpr int kSlots = 5;
struct Cell {
  uint64_t key;  // granule, 0 = unused
  uint32_t epoch;
  uint8_t freed;
  uint8_t freedBy;
  uint8_t next;
  Access a[kSlots];
  const void* pc[kSlots];
};

constexpr size_t kCells = 1 << 18;
Cell* g_cells = nullptr;
size_t g_usedCells = 0;
uint32_t g_epoch = 0;

bool g_active = false;
vs::Config g_cfg;
pbt::Case* g_c = nullptr;
Vec<Thread*> g_threads;
Thread* g_running = nullptr;
int64_t g_now = 0;
uint64_t g_steps = 0;
uint64_t g_sinceSwitch = 0;
uint64_t g_switches = 0;
uint64_t g_preempt = 0;
uint64_t g_syncOps = 0;

enum Mode { kNone, kSync, kMem, kPct, kSyncDense };
Mode g_mode = kNone;
uint64_t g_gap = 1;
int64_t g_countdown = INT64_MAX;
Vec<uint64_t> g_change;
uint64_t g_lowPrio = 0;

std::map<const void*, MutexState, std::less<const void*>,
         MA<std::pair<const void* const, MutexState>>>
    g_mutexes;
std::map<const void*, SyncVar, std::less<const void*>,
         MA<std::pair<const void* const, SyncVar>>>
    g_syncs;

struct Trace {
  int tid;
  const char* what;
  const void* addr;
  const void* pc;
};
constexpr size_t kTrace = 96;
Trace g_trace[kTrace];
uint64_t g_traceN = 0;

thread_local Thread* t_self __attribute__((tls_model("initial-exec"))) = nullptr;

void trace(const char* what, const void* addr, const void* pc = nullptr) {
  g_trace[g_traceN++ % kTrace] = {t_self ? t_self->id : -1, what, addr, pc};
}

std::string where(const void* pc) {
  if (!pc) return "?";
  Dl_info di;
  if (dladdr(pc, &di) && di.dli_fbase) {
    return pbt::fmt("[pc %s+0x%zx]", di.dli_fname ? di.dli_fname : "",
                    (size_t)pc - (size_t)di.dli_fbase - 1);
  }
  return pbt::fmt("[%p]", pc);
}

std::string threadDump() {
  std::string s;
  for (auto t : g_threads) {
    s += pbt::fmt("\n  thread %d: %s%s%s", t->id, stName(t->state),
                  t->what ? " " : "", t->what ? t->what : "");
    if (t->deadline >= 0) s += pbt::fmt(" deadline +%lldus", (long long)((t->deadline - g_now) / 1000));
    if (t->state != St::Done && t->state != St::Ready && t->addr) {
      s += pbt::fmt(" %p", t->addr);
      auto it = g_mutexes.find(t->addr);
      if (it != g_mutexes.end() && it->second.owner) {
        s += pbt::fmt(" held by thread %d", it->second.owner->id);
      }
    }
  }
  return s;
}

[[noreturn]] void die(const std::string& msg) {
  if (t_self) t_self->quiet++;
  g_active = false;
  std::string full = msg;
  if (getenv("VS_TRACE")) {
    full += "\ntrace:";
    uint64_t n = std::min<uint64_t>(g_traceN, kTrace);
    for (uint64_t i = g_traceN - n; i < g_traceN; i++) {
      auto& t = g_trace[i % kTrace];
      full += pbt::fmt("\n  T%d %s %p %s", t.tid, t.what, t.addr,
                       t.pc ? where(t.pc).c_str() : "");
    }
  }
  pbt::failNow(full);
}

// Arena for operator new, so that its addresses are never used by malloc.
constexpr size_t kArena = size_t(1) << 36;
char* g_arena = nullptr;
size_t g_arenaPos = 0;
std::atomic_flag g_arenaLock = ATOMIC_FLAG_INIT;
struct Hdr {
  uint64_t size;  // requested
  uint32_t cls;
  uint32_t magic;
};
constexpr uint32_t kLive = 0xA110CA7E, kDead = 0xDEADBEEF;
struct FreeNode {
  FreeNode* next;
};
FreeNode* g_freeLists[48];
int64_t g_live = 0, g_liveBytes = 0;
Vec<Hdr*> g_quarantine;
uint64_t g_quarantineBytes = 0;

void lockArena() {
  while (g_arenaLock.test_and_set(std::memory_order_acquire)) {
  }
}
void unlockArena() { g_arenaLock.clear(std::memory_order_release); }

void clearShadow(const void* p, size_t n);

void* arenaNew(size_t n) {
  lockArena();
  if (!g_arena) {
    g_arena = static_cast<char*>(mmap(nullptr, kArena, PROT_READ | PROT_WRITE,
                                      MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE,
                                      -1, 0));
    if (g_arena == MAP_FAILED) abort();
  }
  size_t total = n + sizeof(Hdr);
  uint32_t cls = 5;
  while ((size_t(1) << cls) < total) cls++;
  Hdr* h;
  if (g_freeLists[cls]) {
    auto f = g_freeLists[cls];
    g_freeLists[cls] = f->next;
    h = reinterpret_cast<Hdr*>(f);
  } else {
    h = reinterpret_cast<Hdr*>(g_arena + g_arenaPos);
    g_arenaPos += size_t(1) << cls;
    if (g_arenaPos > kArena) abort();
  }
  h->size = n;
  h->cls = cls;
  h->magic = kLive;
  g_live++;
  g_liveBytes += n;
  unlockArena();
  // Deterministic content, that is not a valid value.
  memset(h + 1, 0xDD, std::min<size_t>(n, 8192));
  return h + 1;
}

void reallyFree(Hdr* h) {
  auto f = reinterpret_cast<FreeNode*>(h);
  auto cls = h->cls;
  f->next = g_freeLists[cls];
  g_freeLists[cls] = f;
}

////////////////////////////////////////////////////////////////////////////////
// Shadow memory
////////////////////////////////////////////////////////////////////////////////

Cell* cell(uint64_t g, bool create) {
  uint64_t h = g * 0x9e3779b97f4a7c15ull >> 46;
  for (size_t k = 0; k < 32; k++) {
    auto& c = g_cells[(h + k) & (kCells - 1)];
    if (c.epoch != g_epoch) {
      if (!create) return nullptr;
      if (g_usedCells > kCells / 2) return nullptr;
      g_usedCells++;
      c.key = g;
      c.epoch = g_epoch;
      c.freed = 0;
      c.next = 0;
      for (auto& a : c.a) a.used = 0;
      return &c;
    }
    if (c.key == g) return &c;
  }
  return nullptr;
}

void clearShadow(const void* p, size_t n) {
  uint64_t lo = (uint64_t)p >> 3, hi = ((uint64_t)p + n + 7) >> 3;
  for (uint64_t g = lo; g < hi; g++) {
    if (auto c = cell(g, false)) {
      c->freed = 0;
      for (auto& a : c->a) a.used = 0;
    }
  }
}

[[noreturn]] void raceFail(Cell* c, Access& old, const void* oldPc, bool write,
                           const void* pc) {
  die(pbt::fmt("data race: %s by thread %d at %s and %s by thread %d at %s "
               "are not ordered (address %p)",
               old.write ? "write" : "read", old.tid, where(oldPc).c_str(),
               write ? "write" : "read", t_self->id, where(pc).c_str(),
               (void*)(c->key << 3)));
}

void accessGranule(uint64_t g, uint8_t mask, bool write, const void* pc,
                   bool isFree) {
  auto c = cell(g, true);
  if (!c) return;
  if (c->freed) {
    die(pbt::fmt("%s of freed memory at %s by thread %d (freed by thread %d), "
                 "address %p",
                 isFree ? "second release" : (write ? "write" : "read"),
                 where(pc).c_str(), t_self->id, c->freedBy,
                 (void*)(g << 3)));
  }
  auto self = t_self;
  int store = -1;
  int empty = -1;
  for (int i = 0; i < kSlots; i++) {
    auto& a = c->a[i];
    if (!a.used) {
      if (empty < 0) empty = i;
      continue;
    }
    if (a.tid == self->id) {
      if (a.write == write && (a.mask == mask)) {
        store = i;
      } else if ((a.mask & ~mask) == 0 && (write || !a.write)) {
        // covered by this access
        if (store < 0) store = i;
      }
      continue;
    }
    bool ordered = self->vc.c[a.tid] >= a.clock;
    if (!ordered) {
      if ((a.mask & mask) && (a.write || write) && g_cfg.races) {
        raceFail(c, a, c->pc[i], write, pc);
      }
    } else if ((a.mask & ~mask) == 0 && (write || !a.write)) {
      if (store < 0) {
        store = i;
      } else {
        a.used = 0;
      }
    }
  }
  if (store < 0) store = empty;
  if (store < 0) {
    store = c->next;
    c->next = (c->next + 1) % kSlots;
  }
  auto& a = c->a[store];
  a.used = 1;
  a.tid = uint8_t(self->id);
  a.clock = self->vc.c[self->id];
  a.mask = mask;
  a.write = write;
  c->pc[store] = pc;
  if (isFree) {
    c->freed = 1;
    c->freedBy = uint8_t(self->id);
  }
}

void accessRange(const void* p, size_t n, bool write, const void* pc,
                 bool isFree = false) {
  uint64_t addr = (uint64_t)p;
  size_t budget = 512;  // granules
  while (n > 0 && budget-- > 0) {
    uint64_t g = addr >> 3;
    unsigned off = addr & 7;
    unsigned k = (unsigned)std::min<size_t>(8 - off, n);
    uint8_t mask = uint8_t(((1u << k) - 1) << off);
    accessGranule(g, mask, write, pc, isFree);
    addr += k;
    n -= k;
  }
}

void checkFreed(const void* p, const char* what, const void* pc) {
  if (auto c = cell((uint64_t)p >> 3, false)) {
    if (c->freed) {
      die(pbt::fmt("%s of a freed object at %s by thread %d (freed by thread "
                   "%d), address %p",
                   what, where(pc).c_str(), t_self->id, c->freedBy, p));
    }
  }
}

////////////////////////////////////////////////////////////////////////////////
// Scheduler
////////////////////////////////////////////////////////////////////////////////

// A switch must not be noticeable to code that has yet to look at errno.
struct KeepErrno {
  const int saved = errno;
  ~KeepErrno() { errno = saved; }
};

void futexWait(std::atomic<uint32_t>& w) {
  KeepErrno keep;
  while (w.load(std::memory_order_acquire) == 0) {
    syscall(SYS_futex, &w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  }
  w.store(0, std::memory_order_relaxed);
}
void futexWake(std::atomic<uint32_t>& w) {
  KeepErrno keep;
  w.store(1, std::memory_order_release);
  syscall(SYS_futex, &w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

MutexState& mutexState(const void* m) {
  auto it = g_mutexes.find(m);
  if (it == g_mutexes.end()) {
    it = g_mutexes.emplace(m, MutexState()).first;
    it->second.vc.clear();
  }
  return it->second;
}
SyncVar& syncVar(const void* p) {
  auto it = g_syncs.find(p);
  if (it == g_syncs.end()) {
    it = g_syncs.emplace(p, SyncVar()).first;
    it->second.vc.clear();
  }
  return it->second;
}
void tick(Thread* t) { t->vc.c[t->id]++; }
void acquire(Thread* t, const VC& v) { t->vc.join(v); }
void release(Thread* t, VC& v) {
  v.join(t->vc);
  tick(t);
}

bool expired(Thread* t) { return t->deadline >= 0 && t->deadline <= g_now; }

bool fdReady(Thread* t) {
  KeepErrno keep;
  pollfd p = {t->fd, short(t->events), 0};
  if (syscall(SYS_poll, &p, 1, 0) > 0) {
    t->revents = p.revents;
    return true;
  }
  return false;
}

// enabled() returns true if the thread can continue now.
bool enabled(Thread* t) {
  switch (t->state) {
    case St::Ready: return true;
    case St::Mutex: {
      auto& m = mutexState(t->addr);
      return m.owner == nullptr && m.readers == 0;
    }
    case St::RWRead: return mutexState(t->addr).owner == nullptr;
    case St::RWWrite: {
      auto& m = mutexState(t->addr);
      return m.owner == nullptr && m.readers == 0;
    }
    case St::Cond: return t->signalled || expired(t);
    case St::Join: return t->joinee->state == St::Done;
    case St::Sleep: return expired(t);
    case St::Pred: return (*t->pred)();
    case St::Fd: return expired(t) || fdReady(t);
    case St::Guard: return static_cast<const volatile char*>(t->addr)[1] == 0;
    case St::Idle: return false;
    case St::Done: return false;
  }
  return false;
}

int64_t nextDeadline() {
  int64_t best = -1;
  for (auto t : g_threads) {
    if (t->state == St::Done || t->state == St::Ready) continue;
    if (t->deadline >= 0 && (best < 0 || t->deadline < best)) best = t->deadline;
  }
  return best;
}

void drawCountdown() {
  if (g_mode == kSync || g_mode == kMem) {
    g_countdown = 1 + int64_t(g_c->draw(2 * g_gap));
    if (g_c->slot == nullptr) abort();
  } else if (g_mode == kSyncDense) {
    g_countdown = 1;
  } else {
    g_countdown = INT64_MAX;
  }
}

void switchTo(Thread* next) {
  auto self = t_self;
  if (next == self) return;
  g_switches++;
  g_sinceSwitch = 0;
  g_running = next;
  bool done = self->state == St::Done;
  futexWake(next->go);
  if (!done) futexWait(self->go);
}

using Cand = Vec<Thread*>;

Thread* pickFrom(const Cand& v) {
  if (v.size() == 1) return v[0];
  if (g_mode == kPct) {
    Thread* best = v[0];
    for (auto t : v) {
      if (t->prio > best->prio) best = t;
    }
    return best;
  }
  return v[g_c->draw(v.size())];
}

// Chooses who continues, when the current thread cannot.
Thread* pickBlocked() {
  int realWaitMs = 0;
  while (true) {
    Cand v;
    for (auto t : g_threads) {
      if (enabled(t)) v.push_back(t);
    }
    if (!v.empty()) return pickFrom(v);
    // Idle waiters which do not wait for timers come first.
    for (auto t : g_threads) {
      if (t->state == St::Idle && !t->idleTimers) return t;
    }
    bool anyFd = false;
    for (auto t : g_threads) anyFd |= t->state == St::Fd;
    if (anyFd && realWaitMs < 20) {
      // The kernel may still have something to deliver.
      Vec<pollfd> p;
      for (auto t : g_threads) {
        if (t->state == St::Fd) p.push_back({t->fd, short(t->events), 0});
      }
      if (syscall(SYS_poll, p.data(), p.size(), 2) > 0) continue;
      realWaitMs += 10;
      continue;
    }
    int64_t d = nextDeadline();
    if (d >= 0) {
      g_now = std::max(g_now, d);
      continue;
    }
    for (auto t : g_threads) {
      if (t->state == St::Idle) return t;
    }
    if (anyFd && realWaitMs < 400) {
      Vec<pollfd> p;
      for (auto t : g_threads) {
        if (t->state == St::Fd) p.push_back({t->fd, short(t->events), 0});
      }
      if (syscall(SYS_poll, p.data(), p.size(), 50) > 0) continue;
      realWaitMs += 50;
      continue;
    }
    die("deadlock: no thread can continue" + threadDump());
  }
}

void block(St st) {
  auto self = t_self;
  self->state = st;
  // May be able to continue right away (timeouts of the past and the like).
  auto next = pickBlocked();
  switchTo(next);
  self->state = St::Ready;
  self->deadline = -1;
}

bool budget() {
  if (++g_sinceSwitch > 300000) return true;
  return false;
}

void livelock() {
  die("livelock: the case did not finish within " + std::to_string(g_steps) +
      " steps" + threadDump());
}

// Candidates to switch to from a thread that could continue.
void preempt(bool must) {
  auto self = t_self;
  Cand v;
  for (auto t : g_threads) {
    if (t != self && enabled(t)) v.push_back(t);
  }
  if (g_cfg.earlyTimers && g_mode != kPct) {
    for (auto t : g_threads) {
      if (t == self || t->state == St::Done || t->state == St::Ready) continue;
      if (t->deadline >= 0 && !expired(t) && !(t->state == St::Cond && t->signalled)) {
        v.push_back(t);
      }
    }
  }
  size_t spurious = 0;
  if (g_cfg.spurious && g_mode != kPct) {
    for (auto t : g_threads) {
      if (t->state == St::Cond && !t->signalled && !expired(t)) spurious++;
    }
  }
  if (v.empty() && spurious == 0) return;
  Thread* next = nullptr;
  if (spurious && !must && g_c->chance(1, 12)) {
    size_t k = g_c->draw(spurious);
    for (auto t : g_threads) {
      if (t->state == St::Cond && !t->signalled && !expired(t) && k-- == 0) {
        next = t;
        break;
      }
    }
    next->signalled = true;
    // Continues once it gets the mutex.
    trace("spurious wakeup of", (void*)(intptr_t)next->id);
  } else {
    if (v.empty()) return;
    next = pickFrom(v);
    if (!enabled(next)) {
      g_now = std::max(g_now, next->deadline);
      trace("time passes for", (void*)(intptr_t)next->id);
    }
  }
  if (!enabled(next)) return;
  g_preempt++;
  trace("preempted for", (void*)(intptr_t)next->id);
  switchTo(next);
}

// A synchronization operation is about to be executed.
void syncPoint(const char* what, const void* addr, const void* pc) {
  auto self = t_self;
  trace(what, addr, pc);
  g_syncOps++;
  if (++g_steps > g_cfg.maxSteps) livelock();
  self->quiet++;
  if (g_mode == kPct) {
    for (size_t i = 0; i < g_change.size(); i++) {
      if (g_change[i] == g_syncOps) self->prio = g_lowPrio--;
    }
    Thread* best = self;
    for (auto t : g_threads) {
      if (t->prio > best->prio && enabled(t)) best = t;
    }
    if (best != self) {
      g_preempt++;
      switchTo(best);
    } else if (budget()) {
      self->prio = g_lowPrio--;
      g_sinceSwitch = 0;
    }
  } else if (g_mode == kSync || g_mode == kSyncDense ||
             (g_mode == kMem && g_countdown <= 1)) {
    if (--g_countdown <= 0) {
      if (g_mode != kSyncDense || g_c->draw(3) != 0) preempt(false);
      drawCountdown();
    } else if (budget()) {
      preempt(true);
      g_sinceSwitch = 0;
    }
  } else {
    if (g_mode == kMem) g_countdown--;
    if (budget()) {
      preempt(true);
      g_sinceSwitch = 0;
    }
  }
  self->quiet--;
}

inline void memPoint(const void* pc) {
  if (++g_steps > g_cfg.maxSteps) livelock();
  if (g_mode == kMem) {
    if (--g_countdown <= 0) {
      t_self->quiet++;
      preempt(false);
      drawCountdown();
      t_self->quiet--;
    }
  }
  if (++g_sinceSwitch > 300000) {
    t_self->quiet++;
    if (g_mode == kPct) t_self->prio = g_lowPrio--;
    preempt(true);
    g_sinceSwitch = 0;
    t_self->quiet--;
  }
}

inline bool managed() { return g_active && t_self && t_self->quiet == 0; }
// Within Quiet sections, the operations still have their effect.
inline bool inside() { return g_active && t_self; }

template <typename F>
F real(const char* name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
#define REAL(name)                               \
  static decltype(&name) real_##name = nullptr;  \
  if (!real_##name) real_##name = real<decltype(&name)>(#name)

Thread* newThread() {
  if (g_threads.size() >= kMaxThreads) die("too many threads in this case");
  auto t = new (malloc(sizeof(Thread))) Thread();
  t->id = int(g_threads.size());
  t->vc.clear();
  g_threads.push_back(t);
  return t;
}

void* trampoline(void* arg) {
  auto t = static_cast<Thread*>(arg);
  futexWait(t->go);
  t_self = t;
  auto out = t->fn(t->arg);
  t->quiet++;
  trace("ends", nullptr);
  t->state = St::Done;
  tick(t);
  // Hand over.
  auto next = pickBlocked();
  switchTo(next);
  t_self = nullptr;
  return out;
}

int64_t toNs(const timespec* ts) {
  return int64_t(ts->tv_sec) * 1000000000 + ts->tv_nsec;
}
constexpr int64_t kRealBase = 1700000000ll * 1000000000ll;
constexpr int64_t kMonoBase = 1000ll * 1000000000ll;

int64_t deadlineOf(clockid_t clk, const timespec* ts) {
  int64_t sec = ts->tv_sec;
  if (sec > 9000000000ll) sec = 9000000000ll;
  if (sec < 0) sec = 0;
  int64_t ns = sec * 1000000000 + ts->tv_nsec;
  ns -= (clk == CLOCK_REALTIME) ? kRealBase : kMonoBase;
  return std::max<int64_t>(ns, 0);
}

void lockMutex(pthread_mutex_t* m) {
  auto self = t_self;
  auto* ms = &mutexState(m);
  if (ms->owner == self && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE) {
    ms->depth++;
    return;
  }
  if (ms->owner != nullptr || ms->readers) {
    self->addr = m;
    block(St::Mutex);
    ms = &mutexState(m);
  }
  self->addr = nullptr;
  ms->owner = self;
  ms->depth = 1;
  acquire(self, ms->vc);
}

void unlockMutex(pthread_mutex_t* m, const void* pc) {
  auto self = t_self;
  auto& ms = mutexState(m);
  if (ms.owner != self) {
    die(pbt::fmt("unlock at %s of a mutex that is not held by the thread",
                 where(pc).c_str()));
  }
  if (--ms.depth > 0) return;
  release(self, ms.vc);
  ms.owner = nullptr;
}

#define PC __builtin_return_address(0)

int condWait(pthread_cond_t* cv, pthread_mutex_t* m, int64_t deadline,
             const void* pc) {
  auto self = t_self;
  syncPoint("cond wait", cv, pc);
  checkFreed(cv, "wait", pc);
  self->quiet++;
  unlockMutex(m, pc);
  self->addr = cv;
  self->deadline = deadline;
  self->signalled = false;
  block(St::Cond);
  bool timedOut = !self->signalled;
  self->signalled = false;
  self->addr = nullptr;
  lockMutex(m);
  self->quiet--;
  return timedOut ? ETIMEDOUT : 0;
}

void condSignal(pthread_cond_t* cv, bool all) {
  t_self->quiet++;
  Cand v;
  for (auto t : g_threads) {
    if (t->state == St::Cond && t->addr == cv && !t->signalled && !expired(t)) {
      v.push_back(t);
    }
  }
  if (!v.empty()) {
    if (all) {
      for (auto t : v) t->signalled = true;
    } else {
      v[v.size() == 1 ? 0 : g_c->draw(v.size())]->signalled = true;
    }
  }
  t_self->quiet--;
}

}  // namespace

////////////////////////////////////////////////////////////////////////////////
// pthreads
////////////////////////////////////////////////////////////////////////////////

extern "C" {

int pthread_create(pthread_t* out, const pthread_attr_t* attr,
                   void* (*fn)(void*), void* arg) {
  REAL(pthread_create);
  if (!inside()) return real_pthread_create(out, attr, fn, arg);
  syncPoint("create thread", nullptr, PC);
  auto self = t_self;
  self->quiet++;
  auto t = newThread();
  t->fn = fn;
  t->arg = arg;
  // The stack may have been the one of a thread that has ended.
  for (auto o : g_threads) {
    if (o->state == St::Done) t->vc.join(o->vc);
  }
  t->vc.join(self->vc);
  t->vc.c[t->id] = 1;
  tick(self);
  if (g_mode == kPct) t->prio = 1000 + g_c->draw(1000);
  int r = real_pthread_create(&t->handle, attr, trampoline, t);
  if (r != 0) die("pthread_create failed");
  *out = t->handle;
  self->quiet--;
  syncPoint("created thread", (void*)(intptr_t)t->id, PC);
  return 0;
}

int pthread_join(pthread_t h, void** ret) {
  REAL(pthread_join);
  if (!inside()) return real_pthread_join(h, ret);
  syncPoint("join", nullptr, PC);
  auto self = t_self;
  self->quiet++;
  for (auto t : g_threads) {
    if (t->id != 0 && !t->joined && !t->detached && t->handle == h) {
      if (t == self) {
        self->quiet--;
        return EDEADLK;
      }
      self->joinee = t;
      if (t->state != St::Done) block(St::Join);
      self->joinee = nullptr;
      t->joined = true;
      acquire(self, t->vc);
      int r = real_pthread_join(h, ret);
      self->quiet--;
      return r;
    }
  }
  self->quiet--;
  return ESRCH;
}

int pthread_detach(pthread_t h) {
  REAL(pthread_detach);
  if (!inside()) return real_pthread_detach(h);
  for (auto t : g_threads) {
    if (t->id != 0 && !t->joined && !t->detached && t->handle == h) {
      t->detached = true;
    }
  }
  return real_pthread_detach(h);
}

int pthread_mutex_lock(pthread_mutex_t* m) {
  REAL(pthread_mutex_lock);
  if (!inside()) return real_pthread_mutex_lock(m);
  if (t_self->quiet == 0) {
    syncPoint("lock", m, PC);
    checkFreed(m, "lock", PC);
  }
  t_self->quiet++;
  lockMutex(m);
  t_self->quiet--;
  return 0;
}

int pthread_mutex_trylock(pthread_mutex_t* m) {
  REAL(pthread_mutex_trylock);
  if (!inside()) return real_pthread_mutex_trylock(m);
  if (t_self->quiet == 0) syncPoint("trylock", m, PC);
  auto& ms = mutexState(m);
  bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE;
  if (ms.owner && !(ms.owner == t_self && rec)) return EBUSY;
  lockMutex(m);
  return 0;
}

int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t clk,
                            const timespec* ts) {
  REAL(pthread_mutex_clocklock);
  if (!inside()) return real_pthread_mutex_clocklock(m, clk, ts);
  syncPoint("timedlock", m, PC);
  auto self = t_self;
  auto* ms = &mutexState(m);
  self->quiet++;
  int r = 0;
  if (ms->owner && !(ms->owner == self &&
                     (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE)) {
    int64_t dl = deadlineOf(clk, ts);
    std::function<bool()> p = [&] {
      return mutexState(m).owner == nullptr || dl <= g_now;
    };
    self->pred = &p;
    self->deadline = dl;
    block(St::Pred);
    self->pred = nullptr;
    if (mutexState(m).owner != nullptr) r = ETIMEDOUT;
  }
  if (r == 0) lockMutex(m);
  self->quiet--;
  return r;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* ts) {
  return pthread_mutex_clocklock(m, CLOCK_REALTIME, ts);
}

int pthread_mutex_unlock(pthread_mutex_t* m) {
  REAL(pthread_mutex_unlock);
  if (!inside()) return real_pthread_mutex_unlock(m);
  if (t_self->quiet == 0) checkFreed(m, "unlock", PC);
  t_self->quiet++;
  unlockMutex(m, PC);
  t_self->quiet--;
  if (t_self->quiet == 0) syncPoint("unlocked", m, PC);
  return 0;
}

int pthread_mutex_destroy(pthread_mutex_t* m) {
  REAL(pthread_mutex_destroy);
  if (!inside()) return real_pthread_mutex_destroy(m);
  g_mutexes.erase(m);
  return 0;
}

int pthread_cond_wait(pthread_cond_t* cv, pthread_mutex_t* m) {
  REAL(pthread_cond_wait);
  if (!inside()) return real_pthread_cond_wait(cv, m);
  return condWait(cv, m, -1, PC);
}
int pthread_cond_timedwait(pthread_cond_t* cv, pthread_mutex_t* m,
                           const timespec* ts) {
  REAL(pthread_cond_timedwait);
  if (!inside()) return real_pthread_cond_timedwait(cv, m, ts);
  return condWait(cv, m, deadlineOf(CLOCK_REALTIME, ts), PC);
}
int pthread_cond_clockwait(pthread_cond_t* cv, pthread_mutex_t* m,
                           clockid_t clk, const timespec* ts) {
  REAL(pthread_cond_clockwait);
  if (!inside()) return real_pthread_cond_clockwait(cv, m, clk, ts);
  return condWait(cv, m, deadlineOf(clk, ts), PC);
}
int pthread_cond_signal(pthread_cond_t* cv) {
  REAL(pthread_cond_signal);
  if (!inside()) return real_pthread_cond_signal(cv);
  if (t_self->quiet == 0) {
    syncPoint("signal", cv, PC);
    checkFreed(cv, "signal", PC);
  }
  condSignal(cv, false);
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* cv) {
  REAL(pthread_cond_broadcast);
  if (!inside()) return real_pthread_cond_broadcast(cv);
  if (t_self->quiet == 0) {
    syncPoint("broadcast", cv, PC);
    checkFreed(cv, "broadcast", PC);
  }
  condSignal(cv, true);
  return 0;
}
int pthread_cond_destroy(pthread_cond_t* cv) {
  REAL(pthread_cond_destroy);
  if (!inside()) return real_pthread_cond_destroy(cv);
  for (auto t : g_threads) {
    if (t->state == St::Cond && t->addr == cv && !t->signalled && !expired(t)) {
      die(pbt::fmt("a condition variable was destroyed at %s while thread %d "
                   "waits for it",
                   where(PC).c_str(), t->id));
    }
  }
  return 0;
}

int pthread_once(pthread_once_t* o, void (*fn)()) {
  REAL(pthread_once);
  if (!inside()) return real_pthread_once(o, fn);
  auto self = t_self;
  syncPoint("once", o, PC);
  // 2: done (as in glibc), 1: in progress.
  while (*reinterpret_cast<volatile int*>(o) == 1) {
    self->quiet++;
    std::function<bool()> p = [&] {
      return *reinterpret_cast<volatile int*>(o) != 1;
    };
    self->pred = &p;
    self->what = "pthread_once";
    block(St::Pred);
    self->pred = nullptr;
    self->what = nullptr;
    self->quiet--;
  }
  if (*reinterpret_cast<volatile int*>(o) == 0) {
    *reinterpret_cast<volatile int*>(o) = 1;
    try {
      fn();
    } catch (...) {
      *reinterpret_cast<volatile int*>(o) = 0;
      throw;
    }
    *reinterpret_cast<volatile int*>(o) = 2;
    release(self, syncVar(o).vc);
  } else {
    acquire(self, syncVar(o).vc);
  }
  return 0;
}

static int rwRead(pthread_rwlock_t* l, bool try_, const void* pc) {
  syncPoint("read lock", l, pc);
  checkFreed(l, "lock", pc);
  auto self = t_self;
  self->quiet++;
  if (mutexState(l).owner) {
    if (try_) {
      self->quiet--;
      return EBUSY;
    }
    self->addr = l;
    block(St::RWRead);
    self->addr = nullptr;
  }
  auto& m = mutexState(l);
  m.readers++;
  m.readerOf[self->id]++;
  acquire(self, m.vc);
  self->quiet--;
  return 0;
}
static int rwWrite(pthread_rwlock_t* l, bool try_, const void* pc) {
  syncPoint("write lock", l, pc);
  checkFreed(l, "lock", pc);
  auto self = t_self;
  self->quiet++;
  if (mutexState(l).owner || mutexState(l).readers) {
    if (try_) {
      self->quiet--;
      return EBUSY;
    }
    self->addr = l;
    block(St::RWWrite);
    self->addr = nullptr;
  }
  auto& m = mutexState(l);
  m.owner = self;
  m.depth = 1;
  acquire(self, m.vc);
  self->quiet--;
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* l) {
  REAL(pthread_rwlock_rdlock);
  if (!inside()) return real_pthread_rwlock_rdlock(l);
  return rwRead(l, false, PC);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) {
  REAL(pthread_rwlock_tryrdlock);
  if (!inside()) return real_pthread_rwlock_tryrdlock(l);
  return rwRead(l, true, PC);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) {
  REAL(pthread_rwlock_wrlock);
  if (!inside()) return real_pthread_rwlock_wrlock(l);
  return rwWrite(l, false, PC);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) {
  REAL(pthread_rwlock_trywrlock);
  if (!inside()) return real_pthread_rwlock_trywrlock(l);
  return rwWrite(l, true, PC);
}
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
  REAL(pthread_rwlock_unlock);
  if (!inside()) return real_pthread_rwlock_unlock(l);
  auto self = t_self;
  checkFreed(l, "unlock", PC);
  auto& m = mutexState(l);
  if (m.owner == self) {
    release(self, m.vc);
    m.owner = nullptr;
  } else if (m.readers > 0) {
    m.readers--;
    release(self, m.vc);
  } else {
    die("unlock of a read/write lock that is not held");
  }
  if (self->quiet == 0) syncPoint("unlocked", l, PC);
  return 0;
}

int sched_yield() {
  REAL(sched_yield);
  if (!managed()) return real_sched_yield();
  auto self = t_self;
  if (++g_steps > g_cfg.maxSteps) livelock();
  self->quiet++;
  trace("yield", nullptr, PC);
  if (g_mode == kPct) self->prio = g_lowPrio--;
  preempt(true);
  self->quiet--;
  return 0;
}

static int vsleep(int64_t ns, const void* pc) {
  auto self = t_self;
  syncPoint("sleep", nullptr, pc);
  self->quiet++;
  self->deadline = g_now + std::max<int64_t>(ns, 0);
  block(St::Sleep);
  self->quiet--;
  return 0;
}
int nanosleep(const timespec* ts, timespec* rem) {
  REAL(nanosleep);
  if (!inside()) return real_nanosleep(ts, rem);
  return vsleep(toNs(ts), PC);
}
int clock_nanosleep(clockid_t clk, int flags, const timespec* ts,
                    timespec* rem) {
  REAL(clock_nanosleep);
  if (!inside()) return real_clock_nanosleep(clk, flags, ts, rem);
  int64_t ns = (flags & TIMER_ABSTIME) ? deadlineOf(clk, ts) - g_now : toNs(ts);
  return vsleep(ns, PC);
}
int usleep(useconds_t us) {
  REAL(usleep);
  if (!inside()) return real_usleep(us);
  return vsleep(int64_t(us) * 1000, PC);
}

int clock_gettime(clockid_t clk, timespec* ts) {
  if (!inside()) return int(syscall(SYS_clock_gettime, clk, ts));
  if (t_self->quiet == 0 && ++g_steps > g_cfg.maxSteps) livelock();
  g_now += 1000;  // every look at the clock takes a microsecond
  int64_t t = g_now + (clk == CLOCK_REALTIME ? kRealBase : kMonoBase);
  ts->tv_sec = t / 1000000000;
  ts->tv_nsec = t % 1000000000;
  return 0;
}

int gettimeofday(timeval* tv, void* tz) {
  if (!inside()) return int(syscall(SYS_gettimeofday, tv, tz));
  g_now += 1000;
  int64_t t = g_now + kRealBase;
  tv->tv_sec = t / 1000000000;
  tv->tv_usec = (t % 1000000000) / 1000;
  return 0;
}

// Static local initializers.
int __cxa_guard_acquire(char* g) {
  if (__atomic_load_n(g, __ATOMIC_ACQUIRE) == 1) {
    if (inside()) acquire(t_self, syncVar(g).vc);
    return 0;
  }
  if (!inside()) {
    g[1] = 1;
    return 1;
  }
  auto self = t_self;
  if (self->quiet == 0) syncPoint("static init", g, PC);
  while (g[1] && g[0] != 1) {
    self->quiet++;
    self->addr = g;
    block(St::Guard);
    self->addr = nullptr;
    self->quiet--;
  }
  if (g[0] == 1) {
    acquire(self, syncVar(g).vc);
    return 0;
  }
  g[1] = 1;
  return 1;
}
void __cxa_guard_release(char* g) {
  g[1] = 0;
  __atomic_store_n(g, 1, __ATOMIC_RELEASE);
  if (inside()) {
    release(t_self, syncVar(g).vc);
    if (t_self->quiet == 0) syncPoint("static init done", g, PC);
  }
}
void __cxa_guard_abort(char* g) { g[1] = 0; }

////////////////////////////////////////////////////////////////////////////////
// Instrumentation
////////////////////////////////////////////////////////////////////////////////

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}

#define ACCESS(p, n, w)                   \
  do {                                    \
    if (!managed()) return;               \
    memPoint(PC);                         \
    t_self->quiet++;                      \
    accessRange(p, n, w, PC);             \
    t_self->quiet--;                      \
  } while (0)

#define RW(N)                                                        \
  void __tsan_read##N(void* p) { ACCESS(p, N, false); }              \
  void __tsan_write##N(void* p) { ACCESS(p, N, true); }              \
  void __tsan_unaligned_read##N(void* p) { ACCESS(p, N, false); }    \
  void __tsan_unaligned_write##N(void* p) { ACCESS(p, N, true); }    \
  void __tsan_volatile_read##N(void* p) { ACCESS(p, N, false); }     \
  void __tsan_volatile_write##N(void* p) { ACCESS(p, N, true); }     \
  void __tsan_unaligned_volatile_read##N(void* p) { ACCESS(p, N, false); } \
  void __tsan_unaligned_volatile_write##N(void* p) { ACCESS(p, N, true); } \
  void __tsan_read_write##N(void* p) { ACCESS(p, N, true); }         \
  void __tsan_unaligned_read_write##N(void* p) { ACCESS(p, N, true); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)

void __tsan_vptr_read(void** p) { ACCESS(p, 8, false); }
void __tsan_vptr_update(void** p, void* v) {
  if (!managed()) return;
  memPoint(PC);
  if (*p == v) return;
  t_self->quiet++;
  accessRange(p, 8, true, PC);
  t_self->quiet--;
}
void __tsan_read_range(void* p, size_t n) { ACCESS(p, n, false); }
void __tsan_write_range(void* p, size_t n) { ACCESS(p, n, true); }

void* __tsan_memcpy(void* d, const void* s, size_t n) {
  if (managed() && n) {
    memPoint(PC);
    t_self->quiet++;
    accessRange(s, n, false, PC);
    accessRange(d, n, true, PC);
    t_self->quiet--;
  }
  return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n) {
  if (managed() && n) {
    memPoint(PC);
    t_self->quiet++;
    accessRange(s, n, false, PC);
    accessRange(d, n, true, PC);
    t_self->quiet--;
  }
  return memmove(d, s, n);
}
void* __tsan_memset(void* d, int v, size_t n) {
  if (managed() && n) {
    memPoint(PC);
    t_self->quiet++;
    accessRange(d, n, true, PC);
    t_self->quiet--;
  }
  return memset(d, v, n);
}

}  // extern "C"

namespace {
inline bool isAcquire(int mo) {
  return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL ||
         mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME;
}
inline bool isRelease(int mo) {
  return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL ||
         mo == __ATOMIC_SEQ_CST;
}
void atomicBefore(const volatile void* p, const char* what, const void* pc) {
  if (!managed()) return;
  syncPoint(what, (const void*)p, pc);
  t_self->quiet++;
  checkFreed((const void*)p, what, pc);
  t_self->quiet--;
}
void atomicAfter(const volatile void* p, int mo, bool load, bool store) {
  if (!inside()) return;
  t_self->quiet++;
  auto& v = syncVar((const void*)p).vc;
  if (load && isAcquire(mo)) acquire(t_self, v);
  if (store) {
    if (isRelease(mo)) {
      if (load) {
        release(t_self, v);
      } else {
        v = t_self->vc;
        tick(t_self);
      }
    } else if (!load) {
      v.clear();
    }
  }
  t_self->quiet--;
}
}  // namespace

extern "C" {
#define ATOMIC(N, T)                                                          \
  T __tsan_atomic##N##_load(const volatile T* p, int mo) {                    \
    atomicBefore(p, "atomic load", PC);                                       \
    T v = __atomic_load_n(p, __ATOMIC_SEQ_CST);                               \
    atomicAfter(p, mo, true, false);                                          \
    return v;                                                                 \
  }                                                                           \
  void __tsan_atomic##N##_store(volatile T* p, T v, int mo) {                 \
    atomicBefore(p, "atomic store", PC);                                      \
    __atomic_store_n(p, v, __ATOMIC_SEQ_CST);                                 \
    atomicAfter(p, mo, false, true);                                          \
  }                                                                           \
  T __tsan_atomic##N##_exchange(volatile T* p, T v, int mo) {                 \
    atomicBefore(p, "atomic exchange", PC);                                   \
    T o = __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST);                        \
    atomicAfter(p, mo, true, true);                                           \
    return o;                                                                 \
  }                                                                           \
  T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int mo) {                \
    atomicBefore(p, "atomic add", PC);                                        \
    T o = __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                         \
    atomicAfter(p, mo, true, true);                                           \
    return o;                                                                 \
  }                                                                           \
  T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int mo) {                \
    atomicBefore(p, "atomic sub", PC);                                        \
    T o = __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                         \
    atomicAfter(p, mo, true, true);                                           \
    return o;                                                                 \
  }                                                                           \
  T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int mo) {                \
    atomicBefore(p, "atomic and", PC);                                        \
    T o = __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                         \
    atomicAfter(p, mo, true, true);                                           \
    return o;                                                                 \
  }                                                                           \
  T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int mo) {                 \
    atomicBefore(p, "atomic or", PC);                                         \
    T o = __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                          \
    atomicAfter(p, mo, true, true);                                           \
    return o;                                                                 \
  }                                                                           \
  T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int mo) {                \
    atomicBefore(p, "atomic xor", PC);                                        \
    T o = __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);                         \
    atomicAfter(p, mo, true, true);                                           \
    return o;                                                                 \
  }                                                                           \
  T __tsan_atomic##N##_fetch_nand(volatile T* p, T v, int mo) {               \
    atomicBefore(p, "atomic nand", PC);                                       \
    T o = __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST);                        \
    atomicAfter(p, mo, true, true);                                           \
    return o;                                                                 \
  }                                                                           \
  int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T v,    \
                                                 int mo, int fmo) {           \
    atomicBefore(p, "atomic cas", PC);                                        \
    bool ok = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST,   \
                                          __ATOMIC_SEQ_CST);                  \
    atomicAfter(p, ok ? mo : fmo, true, ok);                                  \
    return ok;                                                                \
  }                                                                           \
  int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T v,      \
                                               int mo, int fmo) {             \
    return __tsan_atomic##N##_compare_exchange_strong(p, e, v, mo, fmo);      \
  }                                                                           \
  T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T v, int mo,  \
                                            int fmo) {                        \
    __tsan_atomic##N##_compare_exchange_strong(p, &e, v, mo, fmo);            \
    return e;                                                                 \
  }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {
  __atomic_thread_fence(__ATOMIC_SEQ_CST);
}
void __tsan_atomic_signal_fence(int) {}
}

////////////////////////////////////////////////////////////////////////////////
// operator new and delete
////////////////////////////////////////////////////////////////////////////////

namespace {
void* vsNew(size_t n) {
  auto p = arenaNew(n);
  if (inside() && (static_cast<Hdr*>(p) - 1)->cls > 12) clearShadow(p, n);
  return p;
}
void vsDelete(void* p, const void* pc) {
  if (!p) return;
  auto h = static_cast<Hdr*>(p) - 1;
  if (h->magic != kLive) {
    if (inside()) die("invalid or second delete at " + where(pc));
    pbt::failNow("invalid or second delete");
  }
  if (managed()) {
    t_self->quiet++;
    accessRange(p, std::max<size_t>(1, std::min<size_t>(h->size, 4096)), true,
                pc, true);
    t_self->quiet--;
  }
  lockArena();
  h->magic = kDead;
  g_live--;
  g_liveBytes -= h->size;
  if (inside() && h->cls <= 12) {
    g_quarantine.push_back(h);
    g_quarantineBytes += h->size;
  } else {
    reallyFree(h);
  }
  unlockArena();
}
}  // namespace

void* operator new(size_t n) { return vsNew(n); }
void* operator new[](size_t n) { return vsNew(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return vsNew(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept {
  return vsNew(n);
}
void operator delete(void* p) noexcept { vsDelete(p, PC); }
void operator delete[](void* p) noexcept { vsDelete(p, PC); }
void operator delete(void* p, size_t) noexcept { vsDelete(p, PC); }
void operator delete[](void* p, size_t) noexcept { vsDelete(p, PC); }
void operator delete(void* p, const std::nothrow_t&) noexcept { vsDelete(p, PC); }
void operator delete[](void* p, const std::nothrow_t&) noexcept {
  vsDelete(p, PC);
}

namespace pbt {
int64_t liveAllocs() { return g_live; }
int64_t liveBytes() { return g_liveBytes; }
}  // namespace pbt

////////////////////////////////////////////////////////////////////////////////
// Interface
////////////////////////////////////////////////////////////////////////////////

extern "C" void pbtQuiet(int delta) {
  if (t_self) t_self->quiet += delta;
}

namespace vs {

bool active() { return inside(); }
int tid() { return t_self ? t_self->id : -1; }
int64_t now() { return g_now; }
uint64_t switches() { return g_switches; }
uint64_t preemptions() { return g_preempt; }
int threadCount() { return int(g_threads.size()); }

Quiet::Quiet() {
  if (t_self) t_self->quiet++;
}
Quiet::~Quiet() {
  if (t_self) t_self->quiet--;
}

void yield() {
  if (managed()) syncPoint("yield point", nullptr, PC);
}

void waitUntil(const char* what, const std::function<bool()>& pred) {
  if (!inside()) return;
  auto self = t_self;
  self->quiet++;
  trace("wait until", what);
  if (!pred()) {
    self->pred = &pred;
    self->what = what;
    block(St::Pred);
    self->pred = nullptr;
    self->what = nullptr;
  }
  self->quiet--;
}

bool waitUntil(const char* what, const std::function<bool()>& pred,
               int64_t deadline) {
  if (!inside()) return pred();
  auto self = t_self;
  self->quiet++;
  trace("wait until", what);
  bool ok = pred();
  if (!ok && (deadline < 0 || g_now < deadline)) {
    std::function<bool()> p = [&] {
      return pred() || (deadline >= 0 && deadline <= g_now);
    };
    self->pred = &p;
    self->what = what;
    self->deadline = deadline;
    block(St::Pred);
    self->pred = nullptr;
    self->what = nullptr;
    ok = pred();
  }
  self->quiet--;
  return ok;
}

void waitIdle(bool timers) {
  auto self = t_self;
  self->quiet++;
  self->idleTimers = timers;
  block(St::Idle);
  self->quiet--;
}

int blocked() {
  int n = 0;
  for (auto t : g_threads) {
    if (t != t_self && t->state != St::Done && t->state != St::Ready) n++;
  }
  return n;
}

void sleep(int64_t ns) { vsleep(ns, PC); }

int waitFd(int fd, int events, int64_t deadline) {
  auto self = t_self;
  self->quiet++;
  self->fd = fd;
  self->events = events;
  self->revents = 0;
  self->deadline = deadline;
  if (!fdReady(self)) block(St::Fd);
  self->fd = -1;
  self->deadline = -1;
  self->quiet--;
  return self->revents;
}

static void pin(int worker) {
  static bool done = false;
  if (done) return;
  done = true;
  cpu_set_t set;
  CPU_ZERO(&set);
  if (sched_getaffinity(0, sizeof(set), &set) != 0) return;
  int n = CPU_COUNT(&set);
  if (n <= 1) return;
  int k = worker % n;
  for (int i = 0; i < CPU_SETSIZE; i++) {
    if (CPU_ISSET(i, &set) && k-- == 0) {
      cpu_set_t one;
      CPU_ZERO(&one);
      CPU_SET(i, &one);
      sched_setaffinity(0, sizeof(one), &one);
      return;
    }
  }
}

void run(pbt::Case& c, const std::function<void()>& f, Config cfg) {
  pin(c.worker());
  __libc_single_threaded = 0;
  if (!g_cells) {
    g_cells = static_cast<Cell*>(mmap(nullptr, kCells * sizeof(Cell),
                                      PROT_READ | PROT_WRITE,
                                      MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  }
  g_cfg = cfg;
  g_c = &c;
  g_epoch++;
  g_usedCells = 0;
  g_now = 0;
  g_steps = g_sinceSwitch = g_switches = g_preempt = g_syncOps = 0;
  g_traceN = 0;
  g_mutexes.clear();
  g_syncs.clear();
  g_threads.clear();
  g_change.clear();
  g_lowPrio = 500;

  switch (c.weighted({1, 4, 3, 3, 2})) {
    case 0:
      g_mode = kNone;
      break;
    case 1:
      g_mode = kSync;
      g_gap = 1 + c.draw(24);
      break;
    case 2:
      g_mode = kMem;
      g_gap = uint64_t(4) << c.draw(10);
      break;
    case 3: {
      g_mode = kPct;
      size_t d = c.draw(5);
      uint64_t span = uint64_t(32) << c.draw(6);
      for (size_t i = 0; i < d; i++) g_change.push_back(1 + c.draw(span));
      break;
    }
    case 4:
      g_mode = kSyncDense;
      break;
  }
  auto t = newThread();
  t->vc.c[0] = 1;
  if (g_mode == kPct) t->prio = 1000 + c.draw(1000);
  drawCountdown();
  t_self = t;
  g_running = t;
  g_active = true;

  f();

  t->quiet++;
  // Wait for the others.
  std::function<bool()> p = [] {
    for (auto o : g_threads) {
      if (o->id != 0 && o->state != St::Done) return false;
    }
    return true;
  };
  t->what = "all threads have ended";
  if (!p()) {
    t->pred = &p;
    block(St::Pred);
  }
  g_active = false;
  t_self = nullptr;
  for (auto o : g_threads) {
    if (o->id != 0 && !o->joined && !o->detached) {
      pbt::failNow("a thread was neither joined nor detached");
    }
  }
  lockArena();
  for (auto h : g_quarantine) reallyFree(h);
  g_quarantine.clear();
  g_quarantineBytes = 0;
  unlockArena();
  // Detached threads may still be about to return: their memory is leaked.
  for (auto o : g_threads) {
    if (!o->detached) {
      o->~Thread();
      free(o);
    }
  }
  g_threads.clear();
}

}  // namespace vs
