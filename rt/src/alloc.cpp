#include <vp/alloc.hpp>
#include <vp/hb.hpp>
#include <vp/runtime.hpp>

#include <cstdlib>
#include <cstring>
#include <map>

namespace vp {
unsigned long pool_total = 0;
static std::map<const char*, std::size_t>& live_map() {
  static auto* m = new std::map<const char*, std::size_t>;
  return *m;
}
static constexpr std::size_t GUARD = 64;
static constexpr std::size_t HUGE_BLOCK = std::size_t(1) << 30;  // not filled: only its touched pages cost memory

static void check_guards(const char* p, std::size_t n) {
  for (std::size_t i = 0; i < GUARD; ++i)
    if (p[-static_cast<long>(GUARD) + static_cast<long>(i)] != '\x5a' || p[n + i] != '\x5a')
      violation(fmt("memory written outside of an allocation of %zu bytes (%s)", n,
                    p[n + i] != '\x5a' ? "behind its end" : "before its begin"));
}

void* pool_allocate(std::size_t n) {
  HbIgnore ig;
  ++pool_total;
  char* raw = static_cast<char*>(std::malloc(n + 2 * GUARD));
  char* p = raw + GUARD;
  std::memset(raw, 0x5a, GUARD);
  if (n < HUGE_BLOCK)
    std::memset(p, 0xff, n);
  std::memset(p + n, 0x5a, GUARD);
  live_map()[p] = n;
  hb_forget(raw, n + 2 * GUARD);
  return p;
}
void pool_deallocate(void* q) {
  if (!q)
    return;  // Umpire accepts and ignores null pointers
  auto* p = static_cast<char*>(q);
  auto it = live_map().find(p);
  if (it == live_map().end())
    violation("deallocation of memory that is not allocated (double free?)");
  std::size_t n = it->second;
  check_guards(p, n);
  hb_mem(p, n, true, "deallocate");
  HbIgnore ig;
  live_map().erase(it);
  if (n < HUGE_BLOCK)
    std::memset(p, 0xff, n);
  std::free(p - GUARD);
}
long pool_live() {
  return static_cast<long>(live_map().size());
}
std::size_t pool_size_of(const void* p) {
  auto it = live_map().find(static_cast<const char*>(p));
  return it == live_map().end() ? 0 : it->second;
}
bool pool_contains(const void* q, std::size_t n) {
  auto* p = static_cast<const char*>(q);
  auto it = live_map().upper_bound(p);
  if (it == live_map().begin())
    return false;
  --it;
  return p >= it->first && p + n <= it->first + it->second;
}
void pool_reset() {
  live_map().clear();
}
std::vector<PoolSpec>& pool_specs() {
  static auto* v = new std::vector<PoolSpec>;
  return *v;
}
GpuPoolArgs& gpu_pool_args() {
  static GpuPoolArgs a;
  return a;
}
}
