// The __tsan_* interface that clang's -fsanitize=thread instrumentation calls, implemented on ksim.
#include "ksim_int.h"
using namespace ksim;
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
    void __tsan_read##n(void* p) { access(p, n, false, PC); } \
    void __tsan_write##n(void* p) { access(p, n, true, PC); } \
    void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); } \
    void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); } \
    void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); } \
    void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); } \
    void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false, PC); } \
    void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true, PC); } \
    void __tsan_read_write##n(void* p) { access(p, n, true, PC); } \
    void __tsan_unaligned_read_write##n(void* p) { access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, PC); }
void __tsan_vptr_update(void** p, void*) { access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
void* __tsan_memcpy(void* d, const void* s, size_t n)
{
    access(s, n, false, PC);
    access(d, n, true, PC);
    return memmove(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n)
{
    access(s, n, false, PC);
    access(d, n, true, PC);
    return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n)
{
    access(d, n, true, PC);
    return memset(d, c, n);
}

typedef unsigned char a8;
typedef unsigned short a16;
typedef unsigned int a32;
typedef unsigned long a64;
#define AT(T, N) \
    T __tsan_atomic##N##_load(const volatile T* p, int mo) \
    { \
        bool t = atomic_enter((const void*) p, sizeof(T), false, PC); \
        T v = *p; \
        if (t) hb_load((const void*) p, mo); \
        return v; \
    } \
    void __tsan_atomic##N##_store(volatile T* p, T v, int mo) \
    { \
        bool t = atomic_enter((const void*) p, sizeof(T), true, PC); \
        *p = v; \
        if (t) hb_store((const void*) p, mo); \
    } \
    T __tsan_atomic##N##_exchange(volatile T* p, T v, int mo) \
    { \
        bool t = atomic_enter((const void*) p, sizeof(T), true, PC); \
        T o = *p; \
        *p = v; \
        if (t) hb_rmw((const void*) p, mo); \
        return o; \
    } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T c, T v, int mo, int fmo) \
    { \
        bool t = atomic_enter((const void*) p, sizeof(T), true, PC); \
        T o = *p; \
        if (o == c) \
        { \
            *p = v; \
            if (t) hb_rmw((const void*) p, mo); \
        } \
        else if (t) hb_load((const void*) p, fmo); \
        return o; \
    } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* c, T v, int mo, int fmo) \
    { \
        T o = __tsan_atomic##N##_compare_exchange_val(p, *c, v, mo, fmo); \
        if (o == *c) return 1; \
        *c = o; \
        return 0; \
    } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* c, T v, int mo, int fmo) \
    { \
        return __tsan_atomic##N##_compare_exchange_strong(p, c, v, mo, fmo); \
    }
#define ARITH(T, N, name, expr) \
    T __tsan_atomic##N##_fetch_##name(volatile T* p, T v, int mo) \
    { \
        bool t = atomic_enter((const void*) p, sizeof(T), true, PC); \
        T o = *p; \
        *p = (T) (expr); \
        if (t) hb_rmw((const void*) p, mo); \
        return o; \
    }
#define ALL(T, N) AT(T, N) ARITH(T, N, add, o + v) ARITH(T, N, sub, o - v) ARITH(T, N, and, o & v) ARITH(T, N, or, o | v) ARITH(T, N, xor, o ^ v) ARITH(T, N, nand, ~(o & v))
ALL(a8, 8) ALL(a16, 16) ALL(a32, 32) ALL(a64, 64)
typedef unsigned __int128 a128;
AT(a128, 128)
void __tsan_atomic_thread_fence(int mo) { hb_fence(mo); }
void __tsan_atomic_signal_fence(int) {}
}
// libc scanners called by code under test (linked with --wrap): the bytes they look at are accesses
extern "C" {
void* __real_memchr(const void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
void* __wrap_memchr(const void* p, int c, size_t n)
{
    // defined behaviour ends at the first match; the scan must stay inside the object until then
    if (!rt.running || rt.in_rt || !n) return __real_memchr(p, c, n);
    const char* b = (const char*) p;
    size_t room = valid_run(p, n);
    void* r = __real_memchr(p, c, room);
    size_t used = r ? (const char*) r - b + 1 : n;
    access(p, used, false, PC);
    return r;
}
int __wrap_memcmp(const void* a, const void* b, size_t n)
{
    if (n)
    {
        access(a, n, false, PC);
        access(b, n, false, PC);
    }
    return __real_memcmp(a, b, n);
}
}
