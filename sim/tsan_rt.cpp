// Runtime of the instrumentation (-fsanitize=thread) of the library: every access to a watched object (networks, data and
// global variables) is a scheduling point, and so is one in `coarse` of the other accesses.
#include "internal.hpp"

using namespace sim;

namespace
{
    __attribute__((noinline)) void point(u64 k) { yield(k); }

    __attribute__((noinline)) void coarsePoint()
    {
        coarseLeft = coarseEvery;
        yield(kCoarse);
    }

    __attribute__((always_inline)) inline void touch(const volatile void* p, u64 k, size_t n)
    {
        if (!on)
            return;
        const auto a = reinterpret_cast<uintptr_t>(p);
        if (a - heapLo < heapLen)
            checkHeap(a, n, k == kWrite);
        if (a - arenaLo < arenaLen || a - globLo < globLen)
        {
            if (!disposed.empty() && a - arenaLo < arenaLen && disposed[(a - arenaLo) >> 6])
                badAccess("an access to an object that was destroyed");
            point(k);
        }
        else if (me != nullptr && me->quiet == 0 && --coarseLeft <= 0)
            coarsePoint();
    }
}

extern "C"
{
    void __tsan_init() {}
    void __tsan_func_entry(void*) {}
    void __tsan_func_exit() {}
    void __tsan_ignore_thread_begin() {}
    void __tsan_ignore_thread_end() {}
#define RW(N)                                                         \
    void __tsan_read##N(void* p) { touch(p, kRead, N); }                 \
    void __tsan_write##N(void* p) { touch(p, kWrite, N); }               \
    void __tsan_unaligned_read##N(void* p) { touch(p, kRead, N); }       \
    void __tsan_unaligned_write##N(void* p) { touch(p, kWrite, N); }     \
    void __tsan_volatile_read##N(void* p) { touch(p, kRead, N); }        \
    void __tsan_volatile_write##N(void* p) { touch(p, kWrite, N); }      \
    void __tsan_unaligned_volatile_read##N(void* p) { touch(p, kRead, N); } \
    void __tsan_unaligned_volatile_write##N(void* p) { touch(p, kWrite, N); }
    RW(1) RW(2) RW(4) RW(8) RW(16)
    void __tsan_read_range(void* p, unsigned long n) { touch(p, kRead, n ? n : 1); }
    void __tsan_write_range(void* p, unsigned long n) { touch(p, kWrite, n ? n : 1); }
    void __tsan_vptr_update(void** p, void*) { touch(p, kWrite, 8); }
    void __tsan_vptr_read(void** p) { touch(p, kRead, 8); }

#define ATOMICS(N, T)                                                                                                  \
    T __tsan_atomic##N##_load(const volatile T* a, int) { yield(kAtomic); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##N##_store(volatile T* a, T v, int) { yield(kAtomic); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_exchange(volatile T* a, T v, int) { yield(kAtomic); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_add(volatile T* a, T v, int) { yield(kAtomic); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_sub(volatile T* a, T v, int) { yield(kAtomic); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_and(volatile T* a, T v, int) { yield(kAtomic); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_or(volatile T* a, T v, int) { yield(kAtomic); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); }   \
    T __tsan_atomic##N##_fetch_xor(volatile T* a, T v, int) { yield(kAtomic); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_nand(volatile T* a, T v, int) { yield(kAtomic); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { yield(kAtomic); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { yield(kAtomic); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T* a, T c, T v, int, int) { yield(kAtomic); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
    ATOMICS(8, unsigned char)
    ATOMICS(16, unsigned short)
    ATOMICS(32, unsigned int)
    ATOMICS(64, unsigned long)
    void __tsan_atomic_thread_fence(int) { yield(kAtomic); __atomic_thread_fence(__ATOMIC_SEQ_CST); }
    void __tsan_atomic_signal_fence(int) {}
}
