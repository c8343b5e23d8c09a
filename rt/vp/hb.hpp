// Happens-before tracking (vector clocks) and exact data-race detection on the executed trace.
#pragma once
#include <cstddef>
#include <cstdint>
namespace vp {
struct HbThread;
extern bool hb_on, hb_request;
void hb_begin();
void hb_finish();
HbThread* hb_thread_new(void* fork_token);  // token from hb_fork (consumed) or nullptr
void hb_thread_end(HbThread*);
void hb_switch(HbThread*);
void* hb_fork();
void hb_join_token(void* token);  // current thread inherits the token (consumed)
void hb_event_begin(void* token);
void hb_event_end();
void hb_stack(HbThread*, void* base, std::size_t size);
void hb_release(void* sync);
void hb_acquire(void* sync);
void hb_mem(const void* p, std::size_t n, bool write, const char* what);
void hb_forget(const void* p, std::size_t n);
// accesses made while an HbIgnore lives are not tracked (runtime internals that are protected by locks in pika)
extern int hb_ignore;
void hb_ignore_add(int n);
struct HbIgnore {
  HbIgnore() {
    hb_ignore_add(1);
  }
  ~HbIgnore() {
    hb_ignore_add(-1);
  }
  HbIgnore(const HbIgnore&) = delete;
};
extern std::uint64_t hb_accesses;
}
