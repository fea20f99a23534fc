// The entry points the compiler's -fsanitize=thread instrumentation calls. There is no sanitizer here: each access
// and atomic operation is a scheduling point of the simulator and is checked against freed memory.
#include <cstddef>
#include <cstdint>
#include <cstring>
namespace rt {
void access(const void* p, bool atomic);
}
using rt::access;
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n)                                                                                                          \
    void __tsan_read##n(void* p) { access(p, false); }                                                                 \
    void __tsan_write##n(void* p) { access(p, false); }                                                                \
    void __tsan_unaligned_read##n(void* p) { access(p, false); }                                                       \
    void __tsan_unaligned_write##n(void* p) { access(p, false); }                                                      \
    void __tsan_volatile_read##n(void* p) { access(p, false); }                                                        \
    void __tsan_volatile_write##n(void* p) { access(p, false); }
RW(1)
RW(2)
RW(4)
RW(8)
RW(16)
void __tsan_read_range(void* p, size_t n)
{
    if (n)
        access(p, false);
}
void __tsan_write_range(void* p, size_t n)
{
    if (n)
        access(p, false);
}
void __tsan_vptr_update(void** p, void*) { access(p, false); }
void __tsan_vptr_read(void** p) { access(p, false); }
#define AT(bits, T)                                                                                                    \
    T __tsan_atomic##bits##_load(const volatile T* p, int)                                                             \
    {                                                                                                                  \
        access((const void*)p, true);                                                                                  \
        return *p;                                                                                                     \
    }                                                                                                                  \
    void __tsan_atomic##bits##_store(volatile T* p, T v, int)                                                          \
    {                                                                                                                  \
        access((const void*)p, true);                                                                                  \
        *p = v;                                                                                                        \
        access((const void*)p, true);                                                                                  \
    }                                                                                                                  \
    T __tsan_atomic##bits##_exchange(volatile T* p, T v, int)                                                          \
    {                                                                                                                  \
        access((const void*)p, true);                                                                                  \
        T o = *p;                                                                                                      \
        *p = v;                                                                                                        \
        return o;                                                                                                      \
    }                                                                                                                  \
    T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int)                                                         \
    {                                                                                                                  \
        access((const void*)p, true);                                                                                  \
        return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST);                                                             \
    }                                                                                                                  \
    T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int)                                                         \
    {                                                                                                                  \
        access((const void*)p, true);                                                                                  \
        return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST);                                                             \
    }                                                                                                                  \
    T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int)                                                         \
    {                                                                                                                  \
        access((const void*)p, true);                                                                                  \
        return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST);                                                             \
    }                                                                                                                  \
    T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int)                                                          \
    {                                                                                                                  \
        access((const void*)p, true);                                                                                  \
        return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST);                                                              \
    }                                                                                                                  \
    T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int)                                                         \
    {                                                                                                                  \
        access((const void*)p, true);                                                                                  \
        return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST);                                                             \
    }                                                                                                                  \
    T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int)                                                        \
    {                                                                                                                  \
        access((const void*)p, true);                                                                                  \
        return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST);                                                            \
    }                                                                                                                  \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int, int)                              \
    {                                                                                                                  \
        access((const void*)p, true);                                                                                  \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                        \
    }                                                                                                                  \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int, int)                                \
    {                                                                                                                  \
        access((const void*)p, true);                                                                                  \
        return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                        \
    }                                                                                                                  \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int, int)                                    \
    {                                                                                                                  \
        access((const void*)p, true);                                                                                  \
        __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                              \
        return e;                                                                                                      \
    }
AT(8, uint8_t)
AT(16, uint16_t)
AT(32, uint32_t)
AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
