// Happens-before race detection: the __tsan_* ABI implemented with exact vector clocks over fibers.
// Compiled without instrumentation.
#include <vp/hb.hpp>
#include <vp/runtime.hpp>

#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <execinfo.h>
#include <malloc.h>
#include <string>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <unordered_map>
#include <vector>

namespace vp {

bool hb_on = false;
bool hb_request = false;
int hb_ignore = 0;
void hb_ignore_add(int n) {
  hb_ignore += n;
}
std::uint64_t hb_accesses = 0;

using Clock = std::uint32_t;
struct VC {
  std::vector<Clock> c;
  Clock get(std::size_t i) const {
    return i < c.size() ? c[i] : 0;
  }
  void join(const VC& o) {
    if (c.size() < o.c.size())
      c.resize(o.c.size(), 0);
    for (std::size_t i = 0; i < o.c.size(); ++i)
      if (o.c[i] > c[i])
        c[i] = o.c[i];
  }
};

struct HbThread {
  std::uint16_t slot;
  VC vc;
  int rank;
};

struct Entry {
  Clock clk;
  std::uint16_t slot;
  std::uint8_t mask;
  std::uint8_t write;
  const void* pc;
};
struct Cell {
  Entry* e = nullptr;
  std::uint16_t n = 0, cap = 0;
};
struct Page {
  Cell cell[512];
  std::unordered_map<std::uintptr_t, VC>* sync = nullptr;
};

static std::unordered_map<std::uintptr_t, Page*>* pages;
static std::uintptr_t last_page_no = 0;
static Page* last_page = nullptr;
static std::vector<Clock>* slot_clock;       // last clock used by each slot
static std::vector<std::uint16_t>* free_slots;
static HbThread* cur = nullptr;
static HbThread* main_thread = nullptr;
static std::vector<HbThread*>* ev_stack;
static bool inside = false;

struct Inside {
  bool old;
  Inside() : old(inside) {
    inside = true;
  }
  ~Inside() {
    inside = old;
  }
};

static Page* page(std::uintptr_t a, bool make) {
  std::uintptr_t no = a >> 12;
  if (no == last_page_no && last_page)
    return last_page;
  auto it = pages->find(no);
  if (it == pages->end()) {
    if (!make)
      return nullptr;
    it = pages->emplace(no, new Page).first;
  }
  last_page_no = no;
  last_page = it->second;
  return last_page;
}

void hb_begin() {
  Inside in;
  // libstdc++ must use atomic operations for reference counts: these order the threads
  __libc_single_threaded = 0;
  if (!pages) {
    pages = new std::unordered_map<std::uintptr_t, Page*>;
    slot_clock = new std::vector<Clock>;
    free_slots = new std::vector<std::uint16_t>;
    ev_stack = new std::vector<HbThread*>;
  }
  main_thread = nullptr;
  cur = nullptr;
  main_thread = hb_thread_new(nullptr);
  cur = main_thread;
}

void hb_finish() {
  Inside in;
  for (auto& p : *pages) {
    for (auto& c : p.second->cell)
      std::free(c.e);
    delete p.second->sync;
    delete p.second;
  }
  pages->clear();
  last_page = nullptr;
  slot_clock->clear();
  free_slots->clear();
  delete main_thread;
  main_thread = nullptr;
  cur = nullptr;
  hb_on = false;
}

static void tick(HbThread* t) {
  Clock c = ++(*slot_clock)[t->slot];
  if (t->vc.c.size() <= t->slot)
    t->vc.c.resize(t->slot + 1u, 0);
  t->vc.c[t->slot] = c;
}

HbThread* hb_thread_new(void* token) {
  Inside in;
  auto* t = new HbThread;
  t->rank = 0;
  if (token) {
    auto* v = static_cast<VC*>(token);
    t->vc = std::move(*v);
    delete v;
  }
  else if (main_thread)
    t->vc = main_thread->vc;
  // reuse the slot of a finished thread that happens before this one
  for (std::size_t i = free_slots->size(); i-- > 0;) {
    std::uint16_t s = (*free_slots)[i];
    if (t->vc.get(s) >= (*slot_clock)[s]) {
      free_slots->erase(free_slots->begin() + static_cast<std::ptrdiff_t>(i));
      t->slot = s;
      tick(t);
      return t;
    }
  }
  if (slot_clock->size() >= 65000)
    violation("internal: too many concurrent tasks for race detection");
  t->slot = static_cast<std::uint16_t>(slot_clock->size());
  slot_clock->push_back(0);
  tick(t);
  return t;
}

void hb_thread_end(HbThread* t) {
  if (!t || !hb_on)
    return;
  Inside in;
  free_slots->push_back(t->slot);
  if (cur == t)
    cur = main_thread;
  delete t;
}

void hb_switch(HbThread* t) {
  cur = t ? t : main_thread;
}

void* hb_fork() {
  if (!hb_on)
    return nullptr;
  Inside in;
  auto* v = new VC(cur->vc);
  tick(cur);
  return v;
}

void hb_join_token(void* token) {
  if (!token)
    return;
  Inside in;
  auto* v = static_cast<VC*>(token);
  if (hb_on)
    cur->vc.join(*v);
  delete v;
}

void hb_event_begin(void* token) {
  Inside in;
  HbThread* t = hb_thread_new(token);
  ev_stack->push_back(cur);
  cur = t;
  // events run on the scheduler's stack, which is not theirs alone
  constexpr std::size_t reach = 128 * 1024;
  hb_forget(static_cast<char*>(__builtin_frame_address(0)) - reach, reach);
}
void hb_event_end() {
  Inside in;
  HbThread* t = cur;
  cur = ev_stack->back();
  ev_stack->pop_back();
  free_slots->push_back(t->slot);
  delete t;
}

// the stack is handed to a new task: what earlier tasks did on it does not count
void hb_stack(HbThread*, void* base, std::size_t size) {
  hb_forget(base, size);
}

static VC& sync_of(const void* p) {
  auto a = reinterpret_cast<std::uintptr_t>(p);
  Page* pg = page(a, true);
  if (!pg->sync)
    pg->sync = new std::unordered_map<std::uintptr_t, VC>;
  return (*pg->sync)[a];
}

void hb_release(void* s) {
  if (!hb_on || !cur)
    return;
  Inside in;
  sync_of(s).join(cur->vc);
  tick(cur);
}
void hb_acquire(void* s) {
  if (!hb_on || !cur)
    return;
  Inside in;
  cur->vc.join(sync_of(s));
}

static std::string sym(const void* pc) {
  Dl_info i;
  if (dladdr(const_cast<void*>(pc), &i) && i.dli_fname) {
    const char* b = std::strrchr(i.dli_fname, '/');
    return fmt("%s+0x%lx", b ? b + 1 : i.dli_fname,
               static_cast<unsigned long>(static_cast<const char*>(pc) - static_cast<const char*>(i.dli_fbase)));
  }
  return fmt("%p", pc);
}

static void access_cell(Cell& c, std::uint8_t mask, bool write, const void* pc, std::uintptr_t addr) {
  HbThread* t = cur;
  Clock my = t->vc.c[t->slot];
  std::uint16_t k = 0;
  for (std::uint16_t i = 0; i < c.n; ++i) {
    Entry& e = c.e[i];
    if (e.mask & mask) {
      bool before = e.slot == t->slot || e.clk <= t->vc.get(e.slot);
      if (!before && (e.write || write)) {
        hb_on = false;
        violation(fmt("data race: unordered %s at %s and earlier %s at %s of address %p (rank %d)",
                      write ? "write" : "read", sym(pc).c_str(), e.write ? "write" : "read", sym(e.pc).c_str(),
                      reinterpret_cast<void*>(addr), current_rank()));
      }
      if (before && (e.mask & ~mask) == 0 && (write || !e.write)) {
        // identical access by the same thread at the same time: nothing new
        continue;  // covered by the new access
      }
    }
    c.e[k++] = e;
  }
  c.n = k;
  // a read covered by this thread's own earlier write needs no entry
  if (!write)
    for (std::uint16_t i = 0; i < c.n; ++i)
      if (c.e[i].slot == t->slot && c.e[i].write && c.e[i].clk == my && (mask & ~c.e[i].mask) == 0)
        return;
  if (c.n == c.cap) {
    c.cap = static_cast<std::uint16_t>(c.cap ? c.cap * 2 : 2);
    c.e = static_cast<Entry*>(std::realloc(c.e, c.cap * sizeof(Entry)));
  }
  c.e[c.n++] = {my, t->slot, mask, static_cast<std::uint8_t>(write), pc};
}

static void access_range(std::uintptr_t a, std::size_t n, bool write, const void* pc) {
  if (inside || hb_ignore || !cur)
    return;
  Inside in;
  ++hb_accesses;
  while (n > 0) {
    std::size_t off = a & 7;
    std::size_t k = 8 - off < n ? 8 - off : n;
    auto mask = static_cast<std::uint8_t>(((1u << k) - 1u) << off);
    Page* p = page(a, true);
    access_cell(p->cell[(a >> 3) & 511], mask, write, pc, a);
    a += k;
    n -= k;
  }
}

void hb_mem(const void* p, std::size_t n, bool write, const char*) {
  if (hb_on)
    access_range(reinterpret_cast<std::uintptr_t>(p), n, write, __builtin_return_address(0));
}

void hb_forget(const void* p, std::size_t n) {
  if (!hb_on || !pages)
    return;
  Inside in;
  auto a = reinterpret_cast<std::uintptr_t>(p);
  auto e = a + n;
  while (a < e) {
    std::uintptr_t pe = (a | 4095) + 1;
    std::uintptr_t end = pe < e ? pe : e;
    Page* pg = page(a, false);
    if (pg) {
      for (std::uintptr_t x = a & ~std::uintptr_t(7); x < end; x += 8)
        pg->cell[(x >> 3) & 511].n = 0;
      if (pg->sync) {
        for (auto it = pg->sync->begin(); it != pg->sync->end();)
          if (it->first >= a && it->first < end)
            it = pg->sync->erase(it);
          else
            ++it;
      }
    }
    a = end;
  }
}
}

// ---- allocation ----------------------------------------------------------------------------------
extern "C" {
void* __libc_malloc(std::size_t);
void __libc_free(void*);
void* __libc_calloc(std::size_t, std::size_t);
void* __libc_realloc(void*, std::size_t);
void* __libc_memalign(std::size_t, std::size_t);

#define HB_ACTIVE (vp::hb_on && !vp::inside)

// Freed memory gets poisoned (0x7ff4... patterns are signalling NaN-like), so that reads of released or
// uninitialised memory change results.
void* malloc(std::size_t n) {
  void* p = __libc_malloc(n);
  if (HB_ACTIVE && p)
    vp::hb_forget(p, malloc_usable_size(p));
  return p;
}
void free(void* p) {
  if (p && HB_ACTIVE && !vp::hb_ignore)
    vp::access_range(reinterpret_cast<std::uintptr_t>(p), malloc_usable_size(p), true, __builtin_return_address(0));
  __libc_free(p);
}
void* calloc(std::size_t a, std::size_t b) {
  void* p = __libc_calloc(a, b);
  if (HB_ACTIVE && p)
    vp::hb_forget(p, malloc_usable_size(p));
  return p;
}
void* realloc(void* q, std::size_t n) {
  void* p = __libc_realloc(q, n);
  if (HB_ACTIVE && p && p != q)
    vp::hb_forget(p, malloc_usable_size(p));
  return p;
}
void* memalign(std::size_t al, std::size_t n) {
  void* p = __libc_memalign(al, n);
  if (HB_ACTIVE && p)
    vp::hb_forget(p, malloc_usable_size(p));
  return p;
}
void* aligned_alloc(std::size_t al, std::size_t n) {
  return memalign(al, n);
}
int posix_memalign(void** out, std::size_t al, std::size_t n) {
  void* p = memalign(al, n);
  if (!p)
    return 12;
  *out = p;
  return 0;
}

// ---- guards of function-local statics --------------------------------------------------------------
int __cxa_guard_acquire(std::uint64_t* g) {
  return *reinterpret_cast<char*>(g) == 0;
}
void __cxa_guard_release(std::uint64_t* g) {
  *reinterpret_cast<char*>(g) = 1;
  vp::hb_release(g);
}
void __cxa_guard_abort(std::uint64_t*) {}

// ---- block memory functions (linked with --wrap) ----------------------------------------------------
void* __real_memcpy(void*, const void*, std::size_t);
void* __real_memmove(void*, const void*, std::size_t);
void* __real_memset(void*, int, std::size_t);
void* __wrap_memcpy(void* d, const void* s, std::size_t n) {
  if (vp::hb_on) {
    vp::access_range(reinterpret_cast<std::uintptr_t>(s), n, false, __builtin_return_address(0));
    vp::access_range(reinterpret_cast<std::uintptr_t>(d), n, true, __builtin_return_address(0));
  }
  return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, std::size_t n) {
  if (vp::hb_on) {
    vp::access_range(reinterpret_cast<std::uintptr_t>(s), n, false, __builtin_return_address(0));
    vp::access_range(reinterpret_cast<std::uintptr_t>(d), n, true, __builtin_return_address(0));
  }
  return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, std::size_t n) {
  if (vp::hb_on)
    vp::access_range(reinterpret_cast<std::uintptr_t>(d), n, true, __builtin_return_address(0));
  return __real_memset(d, c, n);
}

// ---- tsan ABI --------------------------------------------------------------------------------------
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N)                                                                                    \
  void __tsan_read##N(void* p) {                                                                 \
    if (vp::hb_on)                                                                               \
      vp::access_range(reinterpret_cast<std::uintptr_t>(p), N, false, __builtin_return_address(0)); \
  }                                                                                              \
  void __tsan_write##N(void* p) {                                                                \
    if (vp::hb_on)                                                                               \
      vp::access_range(reinterpret_cast<std::uintptr_t>(p), N, true, __builtin_return_address(0));  \
  }                                                                                              \
  void __tsan_volatile_read##N(void* p) {                                                        \
    if (vp::hb_on)                                                                               \
      vp::access_range(reinterpret_cast<std::uintptr_t>(p), N, false, __builtin_return_address(0)); \
  }                                                                                              \
  void __tsan_volatile_write##N(void* p) {                                                       \
    if (vp::hb_on)                                                                               \
      vp::access_range(reinterpret_cast<std::uintptr_t>(p), N, true, __builtin_return_address(0));  \
  }                                                                                              \
  void __tsan_unaligned_read##N(void* p) {                                                       \
    if (vp::hb_on)                                                                               \
      vp::access_range(reinterpret_cast<std::uintptr_t>(p), N, false, __builtin_return_address(0)); \
  }                                                                                              \
  void __tsan_unaligned_write##N(void* p) {                                                      \
    if (vp::hb_on)                                                                               \
      vp::access_range(reinterpret_cast<std::uintptr_t>(p), N, true, __builtin_return_address(0));  \
  }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void* p, std::size_t n) {
  if (vp::hb_on)
    vp::access_range(reinterpret_cast<std::uintptr_t>(p), n, false, __builtin_return_address(0));
}
void __tsan_write_range(void* p, std::size_t n) {
  if (vp::hb_on)
    vp::access_range(reinterpret_cast<std::uintptr_t>(p), n, true, __builtin_return_address(0));
}
// Only the store of a different value to the vptr is an access (same rule as tsan).
void __tsan_vptr_update(void** p, void* v) {
  if (vp::hb_on && *p != v)
    vp::access_range(reinterpret_cast<std::uintptr_t>(p), 8, true, __builtin_return_address(0));
}
void __tsan_vptr_read(void** p) {
  if (vp::hb_on)
    vp::access_range(reinterpret_cast<std::uintptr_t>(p), 8, false, __builtin_return_address(0));
}

static inline bool acq(int mo) {
  return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
}
static inline bool rel(int mo) {
  return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
}
#define ATOMIC(B, T)                                                                             \
  T __tsan_atomic##B##_load(const volatile T* p, int mo) {                                       \
    if (vp::hb_on && acq(mo))                                                                    \
      vp::hb_acquire(const_cast<T*>(p));                                                         \
    return *p;                                                                                   \
  }                                                                                              \
  void __tsan_atomic##B##_store(volatile T* p, T v, int mo) {                                    \
    if (vp::hb_on && rel(mo))                                                                    \
      vp::hb_release(const_cast<T*>(p));                                                         \
    *p = v;                                                                                      \
  }                                                                                              \
  static inline void sync##B(volatile T* p, int mo) {                                            \
    if (vp::hb_on) {                                                                             \
      if (acq(mo))                                                                               \
        vp::hb_acquire(const_cast<T*>(p));                                                       \
      if (rel(mo))                                                                               \
        vp::hb_release(const_cast<T*>(p));                                                       \
    }                                                                                            \
  }                                                                                              \
  T __tsan_atomic##B##_exchange(volatile T* p, T v, int mo) {                                    \
    sync##B(p, mo);                                                                              \
    T o = *p;                                                                                    \
    *p = v;                                                                                      \
    return o;                                                                                    \
  }                                                                                              \
  T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int mo) {                                   \
    sync##B(p, mo);                                                                              \
    T o = *p;                                                                                    \
    *p = static_cast<T>(o + v);                                                                  \
    return o;                                                                                    \
  }                                                                                              \
  T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int mo) {                                   \
    sync##B(p, mo);                                                                              \
    T o = *p;                                                                                    \
    *p = static_cast<T>(o - v);                                                                  \
    return o;                                                                                    \
  }                                                                                              \
  T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int mo) {                                   \
    sync##B(p, mo);                                                                              \
    T o = *p;                                                                                    \
    *p = static_cast<T>(o & v);                                                                  \
    return o;                                                                                    \
  }                                                                                              \
  T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int mo) {                                    \
    sync##B(p, mo);                                                                              \
    T o = *p;                                                                                    \
    *p = static_cast<T>(o | v);                                                                  \
    return o;                                                                                    \
  }                                                                                              \
  T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int mo) {                                   \
    sync##B(p, mo);                                                                              \
    T o = *p;                                                                                    \
    *p = static_cast<T>(o ^ v);                                                                  \
    return o;                                                                                    \
  }                                                                                              \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) {    \
    if (*p == *e) {                                                                              \
      sync##B(p, mo);                                                                            \
      *p = v;                                                                                    \
      return 1;                                                                                  \
    }                                                                                            \
    if (vp::hb_on && acq(fmo))                                                                   \
      vp::hb_acquire(const_cast<T*>(p));                                                         \
    *e = *p;                                                                                     \
    return 0;                                                                                    \
  }                                                                                              \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) {      \
    return __tsan_atomic##B##_compare_exchange_strong(p, e, v, mo, fmo);                         \
  }
ATOMIC(8, std::uint8_t)
ATOMIC(16, std::uint16_t)
ATOMIC(32, std::uint32_t)
ATOMIC(64, std::uint64_t)
__extension__ typedef __int128 vp_i128;
ATOMIC(128, vp_i128)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
