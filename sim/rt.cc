#include "rt.hh"
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <new>
#include <algorithm>
#include <link.h>
#include <utility>
#include <vector>

extern "C" char __data_start, _end; // NOLINT

namespace rt {
uint64_t steps = 0;
uint64_t next_event = UINT64_MAX;
bool track = false;
int in_lpx = 0;
void (*slow)() = nullptr;
void (*on_access)(void const *, size_t, bool, bool, void const *) = nullptr;
void (*on_sync)(void const *, bool, bool) = nullptr;
void (*on_mem)(void *, size_t, bool) = nullptr;
bool alloc_armed = false;
uint64_t alloc_count = 0;
uint64_t alloc_fail_at = UINT64_MAX;
bool alloc_sticky = false;
void (*on_alloc_fault)() = nullptr;

// blocks of the code under test that are in use (open addressing)
struct Block { void *p; size_t n; };
static Block *blocks = nullptr;
static size_t n_slots = 0;
static size_t n_used = 0; // including deleted ones
static void *const deleted = reinterpret_cast<void *>(1);
static size_t slot(void *p) { return (reinterpret_cast<uintptr_t>(p) >> 4) * 0x9e3779b97f4a7c15ULL >> 20; }
static void record(void *p, size_t n) {
    if (2 * (n_used + 1) > n_slots) {
        auto *o = blocks;
        size_t on = n_slots, live = 0;
        for (size_t i = 0; i < on; ++i) { live += static_cast<size_t>(o[i].p != nullptr && o[i].p != deleted); }
        n_slots = 1024;
        while (n_slots < 4 * live) { n_slots *= 2; }
        blocks = static_cast<Block *>(calloc(n_slots, sizeof(Block)));
        n_used = 0;
        for (size_t i = 0; i < on; ++i) { if (o[i].p != nullptr && o[i].p != deleted) { record(o[i].p, o[i].n); } }
        free(o);
    }
    size_t i = slot(p) & (n_slots - 1);
    while (blocks[i].p != nullptr) { i = (i + 1) & (n_slots - 1); }
    blocks[i] = {p, n};
    ++n_used;
}
static void forget(void *p) {
    if (n_slots == 0) { return; }
    for (size_t i = slot(p) & (n_slots - 1); blocks[i].p != nullptr; i = (i + 1) & (n_slots - 1)) {
        if (blocks[i].p == p) { blocks[i].p = deleted; return; }
    }
}
// Blocks that are still in use and that cannot be reached from static data (and from the thread-local data of the
// calling thread): objects that are kept on purpose are no leaks.
static void mark(void const *from, void const *to, std::vector<std::pair<uintptr_t, size_t>> const &live, std::vector<char> &seen, std::vector<size_t> &todo) {
    auto a = (reinterpret_cast<uintptr_t>(from) + 7) & ~uintptr_t{7};
    for (auto e = reinterpret_cast<uintptr_t>(to); a + 8 <= e; a += 8) {
        auto v = *reinterpret_cast<uintptr_t const *>(a);
        auto it = std::upper_bound(live.begin(), live.end(), std::make_pair(v, SIZE_MAX));
        if (it == live.begin()) { continue; }
        --it;
        auto i = static_cast<size_t>(it - live.begin());
        if (v < it->first + std::max<size_t>(it->second, 1) && seen[i] == 0) { seen[i] = 1; todo.push_back(i); }
    }
}
void leaked(size_t &n, size_t &bytes) {
    std::vector<std::pair<uintptr_t, size_t>> live;
    for (size_t i = 0; i < n_slots; ++i) {
        if (blocks[i].p != nullptr && blocks[i].p != deleted) { live.emplace_back(reinterpret_cast<uintptr_t>(blocks[i].p), blocks[i].n); }
    }
    n = bytes = 0;
    if (live.empty()) { return; }
    std::sort(live.begin(), live.end());
    std::vector<char> seen(live.size(), 0);
    std::vector<size_t> todo;
    mark(&__data_start, &_end, live, seen, todo);
    struct Tls { size_t size{0}; } tls;
    dl_iterate_phdr([](dl_phdr_info *info, size_t, void *data) -> int { // the executable comes first
        for (int i = 0; i < info->dlpi_phnum; ++i) {
            if (info->dlpi_phdr[i].p_type == PT_TLS) { static_cast<Tls *>(data)->size = info->dlpi_phdr[i].p_memsz + info->dlpi_phdr[i].p_align; }
        }
        return 1;
    }, &tls);
    auto *tp = static_cast<char *>(__builtin_thread_pointer());
    mark(tp - tls.size, tp, live, seen, todo);
    while (!todo.empty()) {
        auto i = todo.back();
        todo.pop_back();
        mark(reinterpret_cast<void *>(live[i].first), reinterpret_cast<void *>(live[i].first + live[i].second), live, seen, todo);
    }
    for (size_t i = 0; i < live.size(); ++i) {
        if (seen[i] == 0) { ++n; bytes += live[i].second; }
    }
}

static inline void access(void const *a, size_t n, bool w, bool at, void const *pc) {
    if (++steps >= next_event && slow != nullptr) { slow(); }
    if (track) { on_access(a, n, w, at, pc); }
}
} // namespace rt

extern "C" {
#define PC __builtin_return_address(0)
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n)                                                                                                          \
    void __tsan_read##n(void *a) { rt::access(a, n, false, false, PC); }                                               \
    void __tsan_write##n(void *a) { rt::access(a, n, true, false, PC); }                                               \
    void __tsan_unaligned_read##n(void *a) { rt::access(a, n, false, false, PC); }                                     \
    void __tsan_unaligned_write##n(void *a) { rt::access(a, n, true, false, PC); }                                     \
    void __tsan_volatile_read##n(void *a) { rt::access(a, n, false, false, PC); }                                      \
    void __tsan_volatile_write##n(void *a) { rt::access(a, n, true, false, PC); }                                      \
    void __tsan_read_write##n(void *a) { rt::access(a, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { rt::access(a, n, false, false, PC); }
void __tsan_write_range(void *a, size_t n) { rt::access(a, n, true, false, PC); }
void __tsan_vptr_read(void **a) { rt::access(a, 8, false, false, PC); }
void __tsan_vptr_update(void **a, void *v) { if (*a != v) { rt::access(a, 8, true, false, PC); } }

// memory functions are instrumented like the sanitizer's interceptors would
void *__tsan_memcpy(void *d, void const *s, size_t n) { rt::access(s, n, false, false, PC); rt::access(d, n, true, false, PC); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, void const *s, size_t n) { rt::access(s, n, false, false, PC); rt::access(d, n, true, false, PC); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { rt::access(d, n, true, false, PC); return memset(d, c, n); }

static void at(void const volatile *a, size_t n, bool acq, bool rel, void const *pc) {
    auto *p = const_cast<void const *>(a);
    rt::access(p, n, rel, true, pc);
    if (rt::on_sync != nullptr) { rt::on_sync(p, acq, rel); }
}
#define AT(B, T)                                                                                                       \
    T __tsan_atomic##B##_load(T const volatile *a, int) { at(a, B / 8, true, false, PC); return *a; }                  \
    void __tsan_atomic##B##_store(T volatile *a, T v, int) { at(a, B / 8, false, true, PC); *a = v; }                  \
    T __tsan_atomic##B##_exchange(T volatile *a, T v, int) { at(a, B / 8, true, true, PC); T o = *a; *a = v; return o; } \
    T __tsan_atomic##B##_fetch_add(T volatile *a, T v, int) { at(a, B / 8, true, true, PC); T o = *a; *a = static_cast<T>(o + v); return o; } \
    T __tsan_atomic##B##_fetch_sub(T volatile *a, T v, int) { at(a, B / 8, true, true, PC); T o = *a; *a = static_cast<T>(o - v); return o; } \
    T __tsan_atomic##B##_fetch_and(T volatile *a, T v, int) { at(a, B / 8, true, true, PC); T o = *a; *a = static_cast<T>(o & v); return o; } \
    T __tsan_atomic##B##_fetch_or(T volatile *a, T v, int) { at(a, B / 8, true, true, PC); T o = *a; *a = static_cast<T>(o | v); return o; }  \
    T __tsan_atomic##B##_fetch_xor(T volatile *a, T v, int) { at(a, B / 8, true, true, PC); T o = *a; *a = static_cast<T>(o ^ v); return o; } \
    int __tsan_atomic##B##_compare_exchange_strong(T volatile *a, T *c, T v, int, int) {                               \
        at(a, B / 8, true, true, PC);                                                                                  \
        if (*a == *c) { *a = v; return 1; }                                                                            \
        *c = *a;                                                                                                       \
        return 0;                                                                                                      \
    }                                                                                                                  \
    int __tsan_atomic##B##_compare_exchange_weak(T volatile *a, T *c, T v, int m, int f) { return __tsan_atomic##B##_compare_exchange_strong(a, c, v, m, f); } \
    T __tsan_atomic##B##_compare_exchange_val(T volatile *a, T c, T v, int m, int f) { __tsan_atomic##B##_compare_exchange_strong(a, &c, v, m, f); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// allocation: references of all objects of this program are redirected here by the linker (--wrap)
void *__real__Znwm(size_t n);
void *__real__Znam(size_t n);
static bool alloc_fails() {
    if (rt::in_lpx <= 0) { return false; }
    ++rt::alloc_count;
    if (!rt::alloc_armed) { return false; }
    if (rt::alloc_count == rt::alloc_fail_at || (rt::alloc_sticky && rt::alloc_count > rt::alloc_fail_at)) {
        if (rt::on_alloc_fault != nullptr) { rt::on_alloc_fault(); }
        return true;
    }
    return false;
}
// Fresh memory of the code under test holds garbage and so does memory it has released; its blocks are recorded until
// they are released, from wherever.
static void *got(void *p, size_t n) {
    if (rt::in_lpx > 0) {
        memset(p, 0xa5, n);
        rt::record(p, n);
    }
    if (rt::on_mem != nullptr) { rt::on_mem(p, n, rt::in_lpx > 0); }
    return p;
}
void *__wrap__Znwm(size_t n) {
    if (alloc_fails()) { throw std::bad_alloc(); }
    return got(__real__Znwm(n), n);
}
void *__wrap__Znam(size_t n) {
    if (alloc_fails()) { throw std::bad_alloc(); }
    return got(__real__Znam(n), n);
}
void *__real__ZnwmRKSt9nothrow_t(size_t n, std::nothrow_t const &);
void *__wrap__ZnwmRKSt9nothrow_t(size_t n, std::nothrow_t const &t) {
    if (alloc_fails()) { return nullptr; }
    auto *p = __real__ZnwmRKSt9nothrow_t(n, t);
    return p != nullptr ? got(p, n) : p;
}
static void freed(void *p) {
    if (p == nullptr) { return; }
    auto n = malloc_usable_size(p);
    if (rt::on_mem != nullptr) { rt::on_mem(p, n, false); }
    rt::forget(p);
    if (rt::in_lpx > 0) { memset(p, 0xdb, n); }
    free(p);
}
void __wrap__ZdlPv(void *p) { freed(p); }
void __wrap__ZdlPvm(void *p, size_t) { freed(p); }
void __wrap__ZdaPv(void *p) { freed(p); }
}

// memory handed over to libraries is released there
void operator delete(void *p) noexcept { rt::forget(p); free(p); }
void operator delete(void *p, size_t) noexcept { rt::forget(p); free(p); }
void operator delete[](void *p) noexcept { rt::forget(p); free(p); }
void operator delete[](void *p, size_t) noexcept { rt::forget(p); free(p); }
