// What the compiler's thread instrumentation calls on every access to memory: here not a race detector but the points
// at which the scheduler may switch to another thread. Linked only into builds of the variant "tsan".
#include "internal.h"
#include <cstring>
using namespace sim;
namespace sim { void access_point(); extern unsigned access_gap; }
static inline void pt() { if (access_gap) access_point(); }
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {} void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
#define RW(n) void __tsan_read##n(void *) { pt(); } void __tsan_write##n(void *) { pt(); } void __tsan_unaligned_read##n(void *) { pt(); } void __tsan_unaligned_write##n(void *) { pt(); } \
    void __tsan_volatile_read##n(void *) { pt(); } void __tsan_volatile_write##n(void *) { pt(); } void __tsan_unaligned_volatile_read##n(void *) { pt(); } void __tsan_unaligned_volatile_write##n(void *) { pt(); } \
    void __tsan_read_write##n(void *) { pt(); } void __tsan_unaligned_read_write##n(void *) { pt(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void **, void *) { pt(); } void __tsan_vptr_read(void **) { pt(); }
void __tsan_read_range(void *, unsigned long) { pt(); } void __tsan_write_range(void *, unsigned long) { pt(); }
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { pt(); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { pt(); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { pt(); return memset(d, c, n); }
#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T *a, int) { pt(); return *a; } void __tsan_atomic##bits##_store(volatile T *a, T v, int) { pt(); *a = v; } \
    T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { pt(); T o = *a; *a = v; return o; } \
    T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { pt(); T o = *a; *a = o + v; return o; } T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { pt(); T o = *a; *a = o - v; return o; } \
    T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { pt(); T o = *a; *a = o & v; return o; } T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { pt(); T o = *a; *a = o | v; return o; } \
    T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { pt(); T o = *a; *a = o ^ v; return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { pt(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { pt(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) { pt(); T o = *a; if (o == c) *a = v; return o; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) { pt(); } void __tsan_atomic_signal_fence(int) {}
}
