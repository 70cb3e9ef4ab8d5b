// Every operation of the atomic types, for every supported width, plus known-bad
// operations (bad_*) that the analysis must report on every run.
#include <stdint.h>
#include <Lintel/AtomicCounter.hpp>

template class lintel::Atomic<int8_t>;
template class lintel::Atomic<uint8_t>;
template class lintel::Atomic<int16_t>;
template class lintel::Atomic<uint16_t>;
template class lintel::Atomic<int32_t>;
template class lintel::Atomic<uint32_t>;
template class lintel::Atomic<int64_t>;
template class lintel::Atomic<uint64_t>;

#define UNSAFE(T) \
    template T lintel::unsafe::atomic_load<T>(const T *); \
    template void lintel::unsafe::atomic_store<T, T>(T *, T); \
    template T lintel::unsafe::atomic_exchange<T, T>(T *, T); \
    template bool lintel::unsafe::atomic_compare_exchange_strong<T, T>(T *, T *, T); \
    template T lintel::unsafe::atomic_fetch_add<T, T>(T *, T); \
    template T lintel::unsafe::atomic_fetch_sub<T, T>(T *, T); \
    template T lintel::unsafe::atomic_fetch_or<T, T>(T *, T); \
    template T lintel::unsafe::atomic_fetch_and<T, T>(T *, T); \
    template T lintel::unsafe::atomic_fetch_xor<T, T>(T *, T);
UNSAFE(uint8_t)
UNSAFE(int32_t)
UNSAFE(int64_t)

void w_fence(lintel::memory_order o) { lintel::atomic_thread_fence(o); }
void w_signal_fence(lintel::memory_order o) { lintel::atomic_signal_fence(o); }

// --- positive controls: same names as the operations they imitate, wrong on purpose
namespace bad_ctl {
    struct Plain { unsigned char counter; unsigned char fetch_add(unsigned char v) { unsigned char o = counter; counter = o + v; return o; } };
    struct NoLock { int counter; int fetch_add(int v) { asm volatile ("xadd %1, %0" : "+m" (counter), "+r" (v) : : "memory"); return v; } };
    struct NoClobber { int counter; int fetch_add(int v) { asm volatile ("lock xadd %1, %0" : "+m" (counter), "+r" (v)); return v; } };
    struct Reread { int counter; int fetch_add(int v) { asm volatile ("lock xadd %1, %0" : "+m" (counter), "+r" (v) : : "memory"); return counter - v; } };
    struct NewForOld { int counter; int fetch_add(int v) { return __sync_add_and_fetch(&counter, v); } };
    struct NoRetry { int counter; int fetch_or(int v) { int o = *(volatile int *)&counter; __sync_bool_compare_and_swap(&counter, o, o | v); return o; } };
    int use(Plain &a, NoLock &b, NoClobber &c, Reread &d, NewForOld &e, NoRetry &f) {
        return a.fetch_add(1) + b.fetch_add(1) + c.fetch_add(1) + d.fetch_add(1) + e.fetch_add(1) + f.fetch_or(1);
    }
}
// negative controls: other correct ways of writing the same operation
namespace good_ctl {
    struct Builtin { int counter; int fetch_add(int v) { return __sync_fetch_and_add(&counter, v); } };
    struct Loop { int counter; int fetch_xor(int v) {
        int o = __atomic_load_n(&counter, __ATOMIC_SEQ_CST);
        while (!__atomic_compare_exchange_n(&counter, &o, o ^ v, true, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) { }
        return o; } };
    struct Sub { unsigned char counter; unsigned char fetch_sub(unsigned char v) { return __sync_sub_and_fetch(&counter, v) + v; } };
    int use(Builtin &a, Loop &b, Sub &c) { return a.fetch_add(1) + b.fetch_xor(1) + c.fetch_sub(1); }
}
