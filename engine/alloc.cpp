// Counting operator new/delete, used by the leak checks.
#include "pbt.h"

#include <atomic>
#include <malloc.h>
#include <new>
#include <stdlib.h>

namespace {
std::atomic<int64_t> g_live{0};
std::atomic<int64_t> g_bytes{0};
void* get(size_t n) {
  void* p = malloc(n ? n : 1);
  if (!p) abort();
  g_live.fetch_add(1, std::memory_order_relaxed);
  g_bytes.fetch_add((int64_t)malloc_usable_size(p), std::memory_order_relaxed);
  return p;
}
void put(void* p) {
  if (!p) return;
  g_live.fetch_sub(1, std::memory_order_relaxed);
  g_bytes.fetch_sub((int64_t)malloc_usable_size(p), std::memory_order_relaxed);
  free(p);
}
}  // namespace

namespace pbt {
int64_t liveAllocs() { return g_live.load(); }
int64_t liveBytes() { return g_bytes.load(); }
}  // namespace pbt

void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept {
  return get(n);
}
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { put(p); }
