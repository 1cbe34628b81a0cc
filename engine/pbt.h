// Small property-based testing engine.
//
// Every random decision of a case is drawn through Case::draw() and recorded as
// a choice sequence. A failing case is shrunk by editing its choice sequence
// and running the property again, and the shrunk sequence is the replay file.
// Properties are run in forked worker processes, so that crashes, sanitizer
// reports and hangs are failures like any other.
#pragma once

#include <stdint.h>
#include <stdarg.h>
#include <stddef.h>
#include <functional>
#include <string>
#include <utility>
#include <vector>

namespace pbt {

struct Slot;  // memory shared with the parent process

class Case {
 public:
  explicit Case(Slot* s) : slot(s) {}

  // draw() returns a value in [0, n). 0 is the simplest choice.
  uint64_t draw(uint64_t n);
  // draw() with a value chosen by the generator function in generate mode.
  uint64_t drawWith(uint64_t n, const std::function<uint64_t(uint64_t)>& f);

  // range() returns a value in [lo, hi].
  int64_t range(int64_t lo, int64_t hi) {
    return lo + static_cast<int64_t>(draw(static_cast<uint64_t>(hi - lo) + 1));
  }
  // chance() returns true with the probability num/den.
  bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
  bool flip() { return draw(2) != 0; }
  // size() returns a value in [0, max], that is biased to small values.
  size_t size(size_t max);
  template <typename T>
  const T& pick(const std::vector<T>& v) {
    return v[draw(v.size())];
  }
  // weighted() returns an index, with the probability proportional to its
  // weight.
  size_t weighted(const std::vector<unsigned>& w);
  // bits() returns 64 random bits.
  uint64_t bits();
  // bytes() returns a string of n arbitrary bytes.
  std::string bytes(size_t n);

  // label() counts this case under the given name (once per call).
  void label(const char* name, uint64_t n = 1);
  // nontrivial() marks this case as non-trivial. hash identifies the case
  // content for the distinct count.
  void nontrivial(uint64_t hash);
  void nontrivial(const std::string& content);
  // describe() records a readable form of the case (used for samples/replays).
  void describe(const std::string& text);
  bool wantDescription() const;

  // fail() reports a violation and never returns.
  [[noreturn]] void fail(const char* fmt, ...)
      __attribute__((format(printf, 2, 3)));

  bool replaying() const;
  uint64_t index() const;
  int worker() const;
  bool thorough() const;

  Slot* slot;
};

uint64_t hashBytes(const void* data, size_t n, uint64_t seed = 0);
inline uint64_t hashStr(const std::string& s, uint64_t seed = 0) {
  return hashBytes(s.data(), s.size(), seed);
}

// Printable form of arbitrary bytes.
std::string esc(const std::string& s, size_t max = 200);
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

// The number of live allocations made with operator new.
int64_t liveAllocs();
int64_t liveBytes();

// leakCheck() runs f repeatedly, and fails if the number of live allocations
// grows with each run.
void leakCheck(Case& c, const std::function<void()>& f);

struct Options {
  const char* name;        // harness name
  const char* rule;        // how cases are made and what is non-trivial
  std::function<void(Case&)> property;
  uint64_t quickCases = 10000;
  uint64_t thoroughCases = 1000000;
  double quickCap = 120;    // seconds, stop early (not a failure)
  double thoroughCap = 3000;
  double hangLimit = 60;    // seconds for a single case
  bool forkPerCase = false; // run each case in a process of its own
  bool exitPerCase = false; // ... that ends by exit()
  int workers = 8;
  bool deterministic = true;  // a case is a function of its choices
  std::function<void(int worker)> workerInit;
};

int run(int argc, char** argv, const Options& o);

// Called with the reason from a context where there is no Case (signal
// handlers, schedulers, ...).
[[noreturn]] void failNow(const std::string& reason);
Case* current();

}  // namespace pbt
