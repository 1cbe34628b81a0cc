#include "pbt.h"

#include <algorithm>
#include <atomic>
#include <errno.h>
#include <fcntl.h>
#include <map>
#include <math.h>
#include <new>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define PBT_ASAN 1
#endif
#endif

// The engine itself must not be disturbed by interposed functions.
#define NOSAN __attribute__((no_sanitize("thread")))

extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=1:"
         "detect_stack_use_after_return=0:handle_segv=1:print_legend=0:"
         "quarantine_size_mb=16:malloc_context_size=8:alloc_dealloc_mismatch=0";
}
extern "C" const char* __ubsan_default_options() {
  return "halt_on_error=1:exitcode=86:print_stacktrace=1";
}

// Suspends the controlled scheduler, where it is linked.
extern "C" __attribute__((weak)) void pbtQuiet(int delta);

namespace pbt {

namespace {
struct Hush {
  Hush() {
    if (pbtQuiet) pbtQuiet(1);
  }
  ~Hush() {
    if (pbtQuiet) pbtQuiet(-1);
  }
};
}  // namespace

static constexpr size_t kMaxChoices = 1 << 20;
static constexpr size_t kMsg = 8192;
static constexpr size_t kDesc = 16384;

struct Slot {
  std::atomic<uint64_t> caseIndex;
  std::atomic<int64_t> startNs;   // monotonic time the case started, or 0
  std::atomic<uint32_t> failed;   // message is valid
  std::atomic<uint64_t> nChoices;
  std::atomic<uint64_t> casesDone;
  std::atomic<uint32_t> overflow;
  int worker;
  uint32_t replay;                // choices are given
  uint64_t replayLen;
  uint64_t rng[4];
  uint32_t sampled;
  uint32_t isNontrivial;
  char msg[kMsg];
  char desc[kDesc];
  uint64_t choices[kMaxChoices];
  uint64_t input[kMaxChoices];
};

struct Label {
  std::atomic<uint32_t> used;
  char name[60];
  std::atomic<uint64_t> count;
};

static constexpr size_t kLabels = 256;
static constexpr size_t kHashes = 1 << 23;
static constexpr size_t kSamples = 12;

struct Shared {
  Label labels[kLabels];
  std::atomic<uint64_t> distinct;
  std::atomic<uint64_t> nontrivialCases;
  std::atomic<uint64_t> nextCase;
  std::atomic<uint32_t> stop;
  std::atomic<uint32_t> nSamples;
  char samples[kSamples][2400];
  std::atomic<uint64_t> hashes[kHashes];
};

static Shared* g_shared = nullptr;
static Case* g_case = nullptr;
static const Options* g_opt = nullptr;
static bool g_thorough = false;
static uint64_t g_seed = 1;
// Cases that a replaying process runs first, so that what is initialized on
// first use is, as in a worker that has run many cases.
static int g_warmUp = 0;
static constexpr uint64_t kWarm = uint64_t(1) << 62;

static int64_t rawNow() {
  timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return int64_t(ts.tv_sec) * 1000000000 + ts.tv_nsec;
}

static void rawSleepMs(int ms) {
  struct timespec ts = {ms / 1000, (ms % 1000) * 1000000L};
  syscall(SYS_nanosleep, &ts, nullptr);
}

static uint64_t splitmix(uint64_t& x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }

static uint64_t nextRng(uint64_t* s) {
  uint64_t r = rotl(s[1] * 5, 7) * 9;
  uint64_t t = s[1] << 17;
  s[2] ^= s[0];
  s[3] ^= s[1];
  s[1] ^= s[2];
  s[0] ^= s[3];
  s[2] ^= t;
  s[3] = rotl(s[3], 45);
  return r;
}

uint64_t Case::drawWith(uint64_t n,
                        const std::function<uint64_t(uint64_t)>& f) {
  Hush hush;
  auto s = slot;
  uint64_t i = s->nChoices.load(std::memory_order_relaxed);
  uint64_t v = 0;
  if (s->replay == 1) {
    if (i < s->replayLen) {
      v = s->input[i];
      if (n != 0 && v >= n) v = n - 1;
    }
  } else {
    uint64_t r = nextRng(s->rng);
    v = f ? f(r) : (n == 0 ? r : r % n);
    if (n != 0 && v >= n) v = n - 1;
  }
  if (i < kMaxChoices) {
    s->choices[i] = v;
    s->nChoices.store(i + 1, std::memory_order_relaxed);
  } else {
    s->overflow.store(1);
  }
  return v;
}

uint64_t Case::draw(uint64_t n) {
  if (n == 1) return 0;
  Hush hush;
  return drawWith(n, nullptr);
}

uint64_t Case::bits() { return drawWith(0, nullptr); }

size_t Case::size(size_t max) {
  Hush hush;
  // Choose a magnitude first, so that small sizes are common and all
  // magnitudes are reached.
  unsigned mags = 1;
  while ((size_t(1) << mags) <= max && mags < 62) mags++;
  uint64_t m = draw(mags + 1);
  if (m == 0) return 0;
  size_t lo = size_t(1) << (m - 1);
  size_t hi = std::min(max, (size_t(1) << m) - 1);
  if (lo > hi) return hi;
  return lo + draw(hi - lo + 1);
}

size_t Case::weighted(const std::vector<unsigned>& w) {
  Hush hush;
  uint64_t total = 0;
  for (auto x : w) total += x;
  uint64_t v = draw(total);
  for (size_t i = 0; i < w.size(); i++) {
    if (v < w[i]) return i;
    v -= w[i];
  }
  return w.size() - 1;
}

std::string Case::bytes(size_t n) {
  Hush hush;
  std::string out;
  out.reserve(n);
  while (n > 0) {
    if (n >= 64) {
      // Long runs: expand 64 bits per choice.
      uint64_t x = bits();
      size_t k = std::min<size_t>(n, 256);
      for (size_t i = 0; i < k; i += 8) {
        uint64_t y = x ? splitmix(x) : 0;
        out.append(reinterpret_cast<char*>(&y), std::min<size_t>(8, k - i));
      }
      n -= k;
    } else {
      out.push_back(char(draw(256)));
      n--;
    }
  }
  return out;
}

void Case::label(const char* name, uint64_t n) {
  Hush hush;
  if (!g_shared || slot->replay) return;
  uint64_t h = hashBytes(name, strlen(name));
  for (size_t k = 0; k < kLabels; k++) {
    auto& l = g_shared->labels[(h + k) % kLabels];
    uint32_t u = l.used.load(std::memory_order_acquire);
    if (u == 0) {
      if (l.used.compare_exchange_strong(u, 1)) {
        snprintf(l.name, sizeof(l.name), "%s", name);
        l.used.store(2, std::memory_order_release);
        l.count += n;
        return;
      }
    }
    while ((u = l.used.load(std::memory_order_acquire)) == 1) {
    }
    if (strncmp(l.name, name, sizeof(l.name) - 1) == 0) {
      l.count += n;
      return;
    }
  }
}

void Case::nontrivial(uint64_t h) {
  Hush hush;
  if (!g_shared || slot->replay) return;
  if (!slot->isNontrivial) {
    slot->isNontrivial = 1;
    g_shared->nontrivialCases++;
  }
  if (h == 0) h = 1;
  uint64_t i = h * 0x9e3779b97f4a7c15ull >> 41;
  for (size_t k = 0; k < 64; k++) {
    auto& e = g_shared->hashes[(i + k) % kHashes];
    uint64_t cur = e.load(std::memory_order_relaxed);
    if (cur == h) return;
    if (cur == 0) {
      if (e.compare_exchange_strong(cur, h)) {
        g_shared->distinct++;
        return;
      }
      if (cur == h) return;
    }
  }
}

void Case::nontrivial(const std::string& content) {
  Hush hush;
  nontrivial(hashStr(content));
}

bool Case::wantDescription() const {
  return slot->replay || g_shared->nSamples.load() < kSamples;
}

void Case::describe(const std::string& text) {
  Hush hush;
  if (!wantDescription()) return;
  size_t n = strlen(slot->desc);
  snprintf(slot->desc + n, kDesc - n, "%s%s", n ? "\n" : "", text.c_str());
}

void Case::fail(const char* f, ...) {
  char buf[kMsg];
  va_list va;
  va_start(va, f);
  vsnprintf(buf, sizeof(buf), f, va);
  va_end(va);
  failNow(buf);
}

void failNow(const std::string& reason) {
  if (g_case) {
    auto s = g_case->slot;
    if (!s->failed.load()) {
      snprintf(s->msg, kMsg, "%s", reason.c_str());
      s->failed.store(1);
    }
  } else {
    fprintf(stderr, "failure outside of a case: %s\n", reason.c_str());
  }
  syscall(SYS_exit_group, 77);
  __builtin_unreachable();
}

Case* current() { return g_case; }
bool Case::replaying() const { return slot->replay; }
uint64_t Case::index() const { return slot->caseIndex.load(); }
int Case::worker() const { return slot->worker; }
bool Case::thorough() const { return g_thorough; }

uint64_t hashBytes(const void* data, size_t n, uint64_t seed) {
  auto p = static_cast<const uint8_t*>(data);
  uint64_t h = 0xcbf29ce484222325ull ^ (seed * 0x9e3779b97f4a7c15ull);
  for (size_t i = 0; i < n; i++) {
    h ^= p[i];
    h *= 0x100000001b3ull;
  }
  h ^= h >> 29;
  h *= 0xbf58476d1ce4e5b9ull;
  h ^= h >> 32;
  return h;
}

std::string esc(const std::string& s, size_t max) {
  std::string out;
  size_t i = 0;
  for (; i < s.size() && out.size() < max; i++) {
    unsigned char c = s[i];
    if (c == '\\') out += "\\\\";
    else if (c == '\n') out += "\\n";
    else if (c == '\r') out += "\\r";
    else if (c >= 32 && c < 127) out += char(c);
    else {
      char b[8];
      snprintf(b, sizeof(b), "\\x%02x", c);
      out += b;
    }
  }
  if (i < s.size()) out += fmt("...(%zu bytes)", s.size());
  return out;
}

std::string fmt(const char* f, ...) {
  va_list va;
  va_start(va, f);
  int n = vsnprintf(nullptr, 0, f, va);
  va_end(va);
  std::string s(n + 1, 0);
  va_start(va, f);
  vsnprintf(&s[0], n + 1, f, va);
  va_end(va);
  s.resize(n);
  return s;
}

void leakCheck(Case& c, const std::function<void()>& f) {
  auto slot = c.slot;
  // Further runs of f draw what the first one drew.
  uint64_t begin = slot->nChoices.load();
  int64_t n0 = liveAllocs();
  f();
  int64_t n1 = liveAllocs();
  if (n1 == n0) return;
  // May be a first-use initialization: look whether it grows every time.
  uint64_t end = slot->nChoices.load();
  uint32_t replay = slot->replay;
  uint64_t replayLen = slot->replayLen;
  memcpy(slot->input + begin, slot->choices + begin,
         (end - begin) * sizeof(uint64_t));
  slot->replay = 1;
  slot->replayLen = end;
  int64_t before = n1, bytes = 0, grown = 0;
  for (int i = 0; i < 2; i++) {
    slot->nChoices.store(begin);
    int64_t b = liveBytes();
    f();
    grown = liveAllocs() - before;
    bytes = liveBytes() - b;
    if (grown <= 0) break;
    before += grown;
  }
  slot->replay = replay;
  slot->replayLen = replayLen;
  if (grown > 0) {
    c.fail("memory leak: every run leaves %lld more allocation(s) behind "
           "(%lld bytes)",
           (long long)grown, (long long)bytes);
  }
}

////////////////////////////////////////////////////////////////////////////////
// Runner
////////////////////////////////////////////////////////////////////////////////

template <typename T>
static T* shm(size_t n = 1) {
  void* p = mmap(nullptr, sizeof(T) * n, PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(2);
  }
  return static_cast<T*>(p);
}

static void seedCase(Slot* s, uint64_t index) {
  uint64_t x = g_seed * 0x2545f4914f6cdd1dull + 0x1234567;
  splitmix(x);
  x ^= index * 0xd6e8feb86659fd93ull;
  x ^= hashBytes(g_opt->name, strlen(g_opt->name));
  for (auto& r : s->rng) r = splitmix(x);
}

static Slot* g_exitSlot = nullptr;

static void runCase(Slot* s, uint64_t index) {
  g_exitSlot = s;
  s->caseIndex.store(index);
  s->nChoices.store(0);
  s->overflow.store(0);
  s->failed.store(0);
  s->desc[0] = 0;
  s->msg[0] = 0;
  s->isNontrivial = 0;
  if (s->replay != 1) seedCase(s, index);
  s->startNs.store(rawNow());
  Case c(s);
  g_case = &c;
  g_opt->property(c);
  g_case = nullptr;
  s->startNs.store(0);
  if (!s->replay && s->isNontrivial && s->desc[0]) {
    uint32_t n = g_shared->nSamples.load();
    if (n < kSamples && g_shared->nSamples.compare_exchange_strong(n, n + 1)) {
      snprintf(g_shared->samples[n], sizeof(g_shared->samples[n]), "%s",
               s->desc);
    }
  }
  s->casesDone++;
}

// Ends the process that ran a case.
static void endCase() {
  if (g_opt->exitPerCase) {
    auto s = g_exitSlot;
    s->startNs.store(rawNow());
    g_case = new (malloc(sizeof(Case))) Case(s);
    exit(0);
  }
  syscall(SYS_exit_group, 0);
}

struct Outcome {
  bool failed = false;
  bool hang = false;
  std::string msg;
};

static std::string describeStatus(int status, Slot* s, bool hang) {
  if (s->failed.load()) return s->msg;
  if (hang) return "hang: the case did not finish";
  if (WIFSIGNALED(status)) {
    return fmt("crash: killed by signal %d (%s)", WTERMSIG(status),
               strsignal(WTERMSIG(status)));
  }
  if (WIFEXITED(status) && WEXITSTATUS(status) == 86) {
    return "crash: sanitizer report";
  }
  return fmt("crash: the process exited with status %d",
             WIFEXITED(status) ? WEXITSTATUS(status) : -1);
}

static std::string g_errDir;

static void redirectStderr(int w) {
  auto p = g_errDir + "/err." + std::to_string(w);
  int fd = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
  if (fd >= 0) {
    dup2(fd, 2);
    dup2(fd, 1);
    close(fd);
  }
}

static std::string sanitizerSummary(int w) {
  auto p = g_errDir + "/err." + std::to_string(w);
  std::string out;
  if (FILE* f = fopen(p.c_str(), "rb")) {
    char line[4096];
    int keep = 0;
    std::string stack;
    while (fgets(line, sizeof(line), f)) {
      if (strstr(line, "ERROR:") || strstr(line, "runtime error:") ||
          strstr(line, "Assertion") || strstr(line, "terminate called") ||
          strstr(line, "what():")) {
        out += line;
        keep = 14;
      } else if (keep > 0) {
        keep--;
        stack += line;
      }
      if (out.size() + stack.size() > 3000) break;
    }
    fclose(f);
    out += stack;
  }
  return out;
}

// tryChoices() runs the property on the given choices in a process of its own.
static Outcome tryChoices(Slot* s, const std::vector<uint64_t>& choices,
                          double limit, std::vector<uint64_t>* consumed) {
  s->replay = 1;
  s->replayLen = std::min(choices.size(), kMaxChoices);
  memcpy(s->input, choices.data(), s->replayLen * sizeof(uint64_t));
  s->failed.store(0);
  s->msg[0] = 0;
  s->desc[0] = 0;
  Outcome out;
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    setpgid(0, 0);
    redirectStderr(s->worker);
    if (g_opt->workerInit) g_opt->workerInit(s->worker);
    uint64_t index = s->caseIndex.load();
    if (g_warmUp) {
      s->replay = 2;
      for (int i = 0; i < g_warmUp; i++) runCase(s, kWarm + uint64_t(i));
      s->replay = 1;
    }
    runCase(s, index);
    endCase();
  }
  auto t0 = rawNow();
  int status = 0;
  bool hang = false;
  int waitMs = 0;
  while (true) {
    pid_t r = waitpid(pid, &status, WNOHANG);
    if (r == pid) break;
    if ((rawNow() - t0) > int64_t(limit * 1e9)) {
      kill(-pid, SIGKILL);
      kill(pid, SIGKILL);
      waitpid(pid, &status, 0);
      hang = true;
      break;
    }
    if (waitMs < 20) {
      struct timespec ts = {0, 200000};
      syscall(SYS_nanosleep, &ts, nullptr);
      waitMs++;
    } else {
      rawSleepMs(2);
    }
  }
  kill(-pid, SIGKILL);
  if (s->replay == 2) return out;  // a case of the warm-up failed
  out.hang = hang;
  out.failed = hang || s->failed.load() ||
               !(WIFEXITED(status) && WEXITSTATUS(status) == 0);
  if (out.failed) {
    out.msg = describeStatus(status, s, hang);
    if (!s->failed.load()) {
      auto more = sanitizerSummary(s->worker);
      if (!more.empty()) out.msg += "\n" + more;
    }
  }
  if (consumed) {
    uint64_t n = std::min<uint64_t>(s->nChoices.load(), kMaxChoices);
    consumed->assign(s->choices, s->choices + n);
  }
  return out;
}

static bool simpler(const std::vector<uint64_t>& a,
                    const std::vector<uint64_t>& b) {
  if (a.size() != b.size()) return a.size() < b.size();
  return a < b;
}

static void trimZeros(std::vector<uint64_t>& v) {
  while (!v.empty() && v.back() == 0) v.pop_back();
}

static std::vector<uint64_t> shrink(Slot* s, std::vector<uint64_t> best,
                                    double budget, double limit,
                                    uint64_t* tries) {
  auto t0 = rawNow();
  auto expired = [&] { return (rawNow() - t0) > int64_t(budget * 1e9); };
  trimZeros(best);
  auto attempt = [&](std::vector<uint64_t> cand) {
    trimZeros(cand);
    if (!simpler(cand, best)) return false;
    (*tries)++;
    std::vector<uint64_t> used;
    auto o = tryChoices(s, cand, limit, &used);
    if (o.failed && !o.hang) {
      if (used.size() < cand.size()) cand.resize(used.size());
      trimZeros(cand);
      best = cand;
      return true;
    }
    return false;
  };
  bool progress = true;
  while (progress && !expired()) {
    progress = false;
    // Truncate.
    for (size_t n = best.size() / 2; n >= 1 && !expired(); n /= 2) {
      while (best.size() > n && !expired()) {
        auto c = best;
        c.resize(c.size() - n);
        if (!attempt(c)) break;
        progress = true;
      }
    }
    // Delete blocks.
    for (size_t n = std::max<size_t>(1, best.size() / 2); n >= 1; n /= 2) {
      for (size_t i = 0; i + n <= best.size() && !expired();) {
        auto c = best;
        c.erase(c.begin() + i, c.begin() + i + n);
        if (attempt(c)) {
          progress = true;
        } else {
          i += n;
        }
      }
      if (expired()) break;
    }
    // Zero blocks.
    for (size_t n = std::max<size_t>(1, best.size() / 4); n >= 1; n /= 2) {
      for (size_t i = 0; i + n <= best.size() && !expired(); i += n) {
        auto c = best;
        bool any = false;
        for (size_t k = i; k < i + n; k++) {
          any |= c[k] != 0;
          c[k] = 0;
        }
        if (any && attempt(c)) progress = true;
      }
      if (expired()) break;
    }
    // Reduce single values.
    for (size_t i = 0; i < best.size() && !expired(); i++) {
      if (i >= best.size() || best[i] == 0) continue;
      uint64_t lo = 0, hi = best[i];
      int guard = 0;
      while (lo < hi && !expired() && guard++ < 24) {
        uint64_t mid = lo + (hi - lo) / 2;
        auto c = best;
        if (i >= c.size()) break;
        c[i] = mid;
        if (attempt(c)) {
          progress = true;
          hi = mid;
          if (i >= best.size()) break;
        } else {
          lo = mid + 1;
        }
      }
    }
  }
  return best;
}

static std::string jsonStr(const std::string& s) {
  std::string out = "\"";
  for (unsigned char c : s) {
    if (c == '"') out += "\\\"";
    else if (c == '\\') out += "\\\\";
    else if (c == '\n') out += "\\n";
    else if (c < 32 || c >= 127) {
      char b[8];
      snprintf(b, sizeof(b), "\\u%04x", c);
      out += b;
    } else out += char(c);
  }
  return out + "\"";
}

static std::vector<uint64_t> readReplay(const char* path) {
  std::vector<uint64_t> out;
  FILE* f = fopen(path, "rb");
  if (!f) {
    perror(path);
    exit(2);
  }
  char line[1 << 16];
  bool in = false;
  while (fgets(line, sizeof(line), f)) {
    if (strncmp(line, "warmup: ", 8) == 0) {
      char* e;
      g_warmUp = int(strtol(line + 8, &e, 10));
      g_seed = strtoull(e, nullptr, 10);
      continue;
    }
    if (strncmp(line, "choices:", 8) == 0) {
      in = true;
      continue;
    }
    if (in) {
      char* p = line;
      while (*p) {
        char* e;
        uint64_t v = strtoull(p, &e, 10);
        if (e == p) break;
        out.push_back(v);
        p = e;
      }
    }
  }
  fclose(f);
  return out;
}

int run(int argc, char** argv, const Options& opt) {
  g_opt = &opt;
  std::string evidence, replayFile, replayOut = ".";
  std::string prop = "?";
  double scale = 1;
  bool verbose = false;
  uint64_t onlyCases = 0;
  if (const char* e = getenv("VERIF_SEED")) {
    g_seed = strtoull(e, nullptr, 10);
  }
  if (const char* e = getenv("VERIF_TIER")) {
    g_thorough = strcmp(e, "thorough") == 0;
  }
  std::string hname = opt.name;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--evidence") evidence = next();
    else if (a == "--replay") replayFile = next();
    else if (a == "--replay-dir") replayOut = next();
    else if (a == "--property") prop = next();
    else if (a == "--name") hname = next();
    else if (a == "--scale") scale = atof(next().c_str());
    else if (a == "--cases") onlyCases = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--seed") g_seed = strtoull(next().c_str(), nullptr, 10);
    else if (a == "--thorough") g_thorough = true;
    else if (a == "--verbose") verbose = true;
  }
  setvbuf(stdout, nullptr, _IOLBF, 0);
  char dir[] = "/tmp/pbt.XXXXXX";
  if (!mkdtemp(dir)) {
    perror("mkdtemp");
    return 2;
  }
  g_errDir = dir;
  auto cleanup = [&](int maxw) {
    for (int w = 0; w <= maxw; w++) {
      unlink((g_errDir + "/err." + std::to_string(w)).c_str());
    }
    rmdir(g_errDir.c_str());
  };

  g_shared = shm<Shared>();
  int W = opt.workers;
  std::vector<Slot*> slots;
  for (int w = 0; w <= W; w++) {
    slots.push_back(shm<Slot>());
    slots.back()->worker = w;
  }

  if (!replayFile.empty()) {
    auto choices = readReplay(replayFile.c_str());
    slots[0]->caseIndex.store(0);
    auto o = tryChoices(slots[0], choices, opt.hangLimit, nullptr);
    if (slots[0]->desc[0]) printf("%s\n", slots[0]->desc);
    printf("%s\n", o.failed ? ("FAILED: " + o.msg).c_str() : "passed");
    cleanup(W);
    return o.failed ? 1 : 0;
  }

  uint64_t total = g_thorough ? opt.thoroughCases : opt.quickCases;
  total = std::max<uint64_t>(1, uint64_t(double(total) * scale));
  if (onlyCases) total = onlyCases;
  double cap = g_thorough ? opt.thoroughCap : opt.quickCap;
  auto t0 = rawNow();
  auto elapsed = [&] { return double(rawNow() - t0) / 1e9; };

  // Cases are handed out by a shared counter. Each case is a function of the
  // seed and its index only.
  auto workerMain = [&](int w) {
    auto s = slots[w];
    redirectStderr(w);
    if (opt.workerInit) opt.workerInit(w);
    while (!g_shared->stop.load()) {
      uint64_t i = g_shared->nextCase++;
      if (i >= total) break;
      if (opt.forkPerCase) {
        s->caseIndex.store(i);
        s->failed.store(0);
        s->startNs.store(rawNow());
        pid_t pid = fork();
        if (pid == 0) {
          runCase(s, i);
          endCase();
        }
        int status = 0;
        while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {
        }
        if (s->failed.load() || !WIFEXITED(status) || WEXITSTATUS(status)) {
          syscall(SYS_exit_group, 78);
        }
        s->startNs.store(0);
      } else {
        runCase(s, i);
      }
    }
    syscall(SYS_exit_group, 0);
  };

  std::vector<pid_t> pids(W, -1);
  auto spawn = [&](int w) {
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
      setpgid(0, 0);
      workerMain(w);
    }
    setpgid(pid, pid);
    pids[w] = pid;
  };

  struct Fail {
    uint64_t index;
    std::vector<uint64_t> choices;
    std::string msg;
    bool hang;
  };
  std::string violation;
  std::string replayPath;
  uint64_t shrinkTries = 0, failCount = 0;
  int unreproduced = 0;
  bool capped = false;
  double searchTime = 0;
  // The search goes on after a failure that does not happen again.
  for (int round = 0; round < 12; round++) {
  std::vector<Fail> fails;
  auto roundStart = elapsed();
  g_shared->stop.store(0);
  for (int w = 0; w < W; w++) {
    slots[w]->failed.store(0);
    slots[w]->startNs.store(0);
    spawn(w);
  }
  int live = W;
  while (live > 0) {
    bool any = false;
    for (int w = 0; w < W; w++) {
      if (pids[w] < 0) continue;
      int status = 0;
      pid_t r = waitpid(pids[w], &status, WNOHANG);
      bool hang = false;
      auto s = slots[w];
      if (r == 0) {
        auto st = s->startNs.load();
        if (st != 0 && rawNow() - st > int64_t(opt.hangLimit * 1e9)) {
          kill(-pids[w], SIGKILL);
          waitpid(pids[w], &status, 0);
          hang = true;
        } else {
          continue;
        }
      }
      any = true;
      kill(-pids[w], SIGKILL);
      pids[w] = -1;
      live--;
      bool ok = WIFEXITED(status) && WEXITSTATUS(status) == 0 && !hang &&
                !s->failed.load();
      if (!ok) {
        Fail f;
        f.index = s->caseIndex.load();
        uint64_t n = std::min<uint64_t>(s->nChoices.load(), kMaxChoices);
        f.choices.assign(s->choices, s->choices + n);
        f.msg = describeStatus(status, s, hang);
        f.hang = hang;
        fails.push_back(f);
        g_shared->stop.store(1);
      }
    }
    if (!capped && searchTime + elapsed() - roundStart > cap) {
      capped = true;
      g_shared->stop.store(1);
    }
    if (!any) rawSleepMs(5);
  }
  searchTime += elapsed() - roundStart;
  failCount += fails.size();
  std::sort(fails.begin(), fails.end(),
            [](const Fail& a, const Fail& b) {
              if (a.hang != b.hang) return !a.hang;
              return a.choices.size() < b.choices.size();
            });
  auto s = slots[W];
  int maxCandidates = 3;
  for (auto& f : fails) {
    if (maxCandidates-- == 0) break;
    printf("case %llu failed: %s\n", (unsigned long long)f.index,
           f.msg.c_str());
    s->caseIndex.store(f.index);
    // Confirm, then shrink, then confirm again.
    int attempts = f.hang ? 1 : (opt.deterministic ? 6 : 25);
    int want = 1;
    int got = 0;
    Outcome last;
    for (int i = 0; i < attempts && got < want; i++) {
      g_warmUp = !opt.forkPerCase && i % 2 ? 30 : 0;
      auto o = tryChoices(s, f.choices, opt.hangLimit, nullptr);
      if (o.failed) {
        got++;
        last = o;
      }
    }
    if (got < want) {
      unreproduced++;
      printf("case %llu did not reproduce (%d of %d runs)\n",
             (unsigned long long)f.index, got, attempts);
      continue;
    }
    auto best = f.choices;
    if (!last.hang && opt.deterministic) {
      auto small = shrink(s, f.choices, 45, std::min(opt.hangLimit, 15.0),
                          &shrinkTries);
      int ok = 0;
      for (int i = 0; i < 3; i++) {
        auto o = tryChoices(s, small, opt.hangLimit, nullptr);
        if (o.failed) {
          ok++;
          last = o;
        }
      }
      if (ok == 3) best = small;
    }
    if (last.failed) {
      violation = last.msg;
    }
    std::string desc = s->desc;
    std::string text = "# property: " + prop + "\n# harness: " + hname +
                       "\n# seed: " + std::to_string(g_seed) +
                       " case: " + std::to_string(f.index) + "\n";
    auto comment = [&](const std::string& t) {
      std::string o = "# ";
      for (char c : t) {
        o += c;
        if (c == '\n') o += "# ";
      }
      return o + "\n";
    };
    text += comment("failure: " + violation);
    text += comment("case:\n" + desc);
    if (g_warmUp) text += fmt("warmup: %d %llu\n", g_warmUp, (unsigned long long)g_seed);
    text += "choices:\n";
    for (size_t i = 0; i < best.size(); i++) {
      text += std::to_string(best[i]) + ((i % 16 == 15) ? "\n" : " ");
    }
    text += "\n";
    replayPath = replayOut + "/" + prop + "-" + hname + "-" +
                 fmt("%08llx", (unsigned long long)(hashStr(text) >> 32)) +
                 ".replay";
    if (FILE* fo = fopen(replayPath.c_str(), "wb")) {
      fwrite(text.data(), 1, text.size(), fo);
      fclose(fo);
    }
    printf("--- shrunk case (%zu choices, %llu shrink runs)\n%s\n--- %s\n",
           best.size(), (unsigned long long)shrinkTries, desc.c_str(),
           violation.c_str());
    break;
  }
  if (fails.empty() || !violation.empty() || capped) break;
  }

  uint64_t done = 0;
  for (int w = 0; w < W; w++) done += slots[w]->casesDone.load();
  // An evaluation that failed counts, too.
  done += failCount;

  std::map<std::string, uint64_t> labels;
  for (auto& l : g_shared->labels) {
    if (l.used.load() == 2) labels[l.name] += l.count.load();
  }
  std::string js = "{";
  js += "\"harness\": " + jsonStr(hname);
  js += ", \"rule\": " + jsonStr(opt.rule);
  js += fmt(", \"evaluations\": %llu", (unsigned long long)done);
  js += fmt(", \"planned\": %llu", (unsigned long long)total);
  js += fmt(", \"nontrivial\": %llu",
            (unsigned long long)g_shared->nontrivialCases.load());
  js += fmt(", \"distinct_nontrivial\": %llu",
            (unsigned long long)g_shared->distinct.load());
  js += fmt(", \"wall_s\": %.2f, \"search_s\": %.2f", elapsed(), searchTime);
  js += std::string(", \"time_capped\": ") + (capped ? "true" : "false");
  js += fmt(", \"unreproduced\": %d", unreproduced);
  js += fmt(", \"shrink_runs\": %llu", (unsigned long long)shrinkTries);
  js += ", \"labels\": {";
  bool first = true;
  for (auto& kv : labels) {
    if (!first) js += ", ";
    first = false;
    js += jsonStr(kv.first) + ": " + std::to_string(kv.second);
  }
  js += "}, \"samples\": [";
  for (uint32_t i = 0; i < std::min<uint32_t>(g_shared->nSamples, 5); i++) {
    if (i) js += ", ";
    js += jsonStr(g_shared->samples[i]);
  }
  js += "]";
  js += ", \"violation\": " +
        (violation.empty() ? std::string("null") : jsonStr(violation));
  js += ", \"replay\": " +
        (replayPath.empty() ? std::string("null") : jsonStr(replayPath));
  js += "}\n";
  if (!evidence.empty()) {
    if (FILE* fo = fopen(evidence.c_str(), "wb")) {
      fwrite(js.data(), 1, js.size(), fo);
      fclose(fo);
    }
  }
  if (verbose || evidence.empty()) printf("%s", js.c_str());
  cleanup(W);
  if (!violation.empty()) return 1;
  return 0;
}

}  // namespace pbt
