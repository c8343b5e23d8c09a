// The runtime's own block copies are not accesses of the program under test (these get announced with hb_mem)
#pragma once
#include <stddef.h>
extern "C" {
void* memcpy(void* __restrict, const void* __restrict, size_t) noexcept __asm__("__real_memcpy");
void* memmove(void*, const void*, size_t) noexcept __asm__("__real_memmove");
void* memset(void*, int, size_t) noexcept __asm__("__real_memset");
}
